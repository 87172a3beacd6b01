------------------------------ MODULE TracePipeline ------------------------------
(***************************************************************************)
(* Conformance of the pipeline steps (C13).                                *)
(*  Facts (first event): what each step makes of each value on a message   *)
(*    of its own.  Values are numbered; vals[i] = [pay, str, wrap: content *)
(*    numbers, 0 none; cn: the value without the time it carries; pub, gen *)
(*    results; valid, null: BOOLEAN; mt: message type in a metadata entry] *)
(*    conts[i] = [parse, validate results]                                 *)
(*  Start: a message as it is before the history                           *)
(*  Step:  one step run on it: what it answered, and the whole message     *)
(*    after it; cur/ctx: the context and the snapshot handed to conditions *)
(*  Flow:  a workflow with conditions run by the real engine               *)
(***************************************************************************)
EXTENDS TraceLib
Facts == Events[1]
V(i) == Facts.vals[i]

PayC(v) == V(v).pay
StrC(v) == V(v).str
WrapC(v) == V(v).wrap
ParseF(c) == Facts.conts[c][1]
ValidF(c) == Facts.conts[c][2]
PublF(v) == V(v).pub
GenrF(v) == V(v).gen
P == INSTANCE Pipeline WITH PayloadContent <- PayC, StringContent <- StrC, WrapperContent <- WrapC, ParseOf <- ParseF, ValidateOf <- ValidF, PublishOf <- PublF, GenerateOf <- GenrF, Null <- Facts.null, None <- 0

VARIABLES s, rest      \* the message; everything else in it
Fun(pairs) == [k \in {pairs[i][1] : i \in DOMAIN pairs} |-> (pairs[CHOOSE i \in DOMAIN pairs : pairs[i][1] = k])[2]]
Obs(e) == [payload |-> e.payload, dobj |-> e.dobj, mobj |-> e.mobj, data |-> Fun(e.data), meta |-> Fun(e.meta)]
\* an observed value is the expected one, up to the time it carries
Is(v, want) == V(v).cn = want

\* the outcome of one step: <<ok, changes>> and the state t after it
StepOk(o, r, ok, chs, t) ==
  IF r[1] = "!" THEN ~ok /\ chs = <<>> /\ t = s
  ELSE /\ ok /\ Len(chs) = 1
       /\ LET v == chs[1][3] e == P!At(t.meta, o.tgt) IN
          /\ r[1] = "ok" => Is(v, r[2])
          /\ chs[1] = P!Change(s, o, v)
          /\ P!Has(t.data, o.tgt)
          /\ \E entry \in {t.meta[k] : k \in DOMAIN t.meta} \cup {Facts.null} :
               /\ t = P!Stored(s, o, v, entry)
               /\ Len(r) > 2 => Is(entry, r[3])
Op(x) == [op |-> x.op, src |-> x.src, tgt |-> x.tgt, cfg |-> x.cfg]

Begin == /\ IsEvent("Facts") /\ UNCHANGED <<s, rest>>
Start == /\ IsEvent("Start") /\ s' = Obs(Ev) /\ rest' = Ev.rest /\ Ev.ctx = Ev.cur
Step == /\ IsEvent("Step")
        /\ s' = Obs(Ev) /\ rest' = Ev.rest
        /\ LET r == P!Result(s, Op(Ev)) IN
           /\ Ev.out \in {"ok", "error"}
           /\ StepOk(Op(Ev), r, Ev.out = "ok", Ev.ch, Obs(Ev)) \/ Why(<<"step", r, s>>)
           /\ Ev.out = "ok" => Ev.status \in 200..299
        /\ Ev.rest = rest \/ Why("something else changed")
        /\ Ev.ctx = Ev.cur \/ Why("conditions see an old state")

\* ---------------------------------------------------------------- workflows
Holds(t, c) == CASE c[1] = "always" -> TRUE
                 [] c[1] = "valid" -> P!Has(t.data, c[2]) /\ V(t.data[c[2]]).valid
                 [] c[1] = "has" -> P!Has(t.data, c[2]) /\ ~V(t.data[c[2]]).null
                 [] c[1] = "type" -> P!Has(t.meta, c[2]) /\ V(t.meta[c[2]]).mt = c[3]
\* tasks from k on, with audit entries from a on; the engine records <<task, failed, changes>> for each task run
RECURSIVE Run(_, _, _, _, _)
Run(t, tasks, k, audit, a) ==
  IF k > Len(tasks) THEN a > Len(audit) /\ (\A n \in DOMAIN t.data \cup DOMAIN Fun(Ev.fdata) : P!Has(t.data, n) /\ P!Has(Fun(Ev.fdata), n) /\ t.data[n] = Fun(Ev.fdata)[n])
                    /\ DOMAIN t.meta = DOMAIN Fun(Ev.fmeta) /\ \A n \in DOMAIN t.meta : V(t.meta[n]).cn = V(Fun(Ev.fmeta)[n]).cn
  ELSE IF ~Holds(t, tasks[k].cond) THEN Run(t, tasks, k + 1, audit, a)
  ELSE /\ a <= Len(audit) /\ audit[a][1] = k
       /\ LET o == Op(tasks[k]) r == P!Result(t, o) IN
          IF r[1] = "!" THEN audit[a][2] /\ audit[a][3] = <<>> /\ Run(t, tasks, k + 1, audit, a + 1)
          ELSE /\ ~audit[a][2] /\ Len(audit[a][3]) = 1
               /\ LET v == audit[a][3][1][3] IN
                  /\ audit[a][3][1] = P!Change(t, o, v) /\ (r[1] = "ok" => Is(v, r[2]))
                  /\ Run(P!Stored(t, o, v, IF Len(r) > 2 THEN r[3] ELSE Facts.null), tasks, k + 1, audit, a + 1)
Flow == /\ IsEvent("Flow") /\ UNCHANGED <<s, rest>>
        /\ Ev.ok
        /\ Run(Obs(Ev), Ev.tasks, 1, Ev.audit, 1) \/ Why(<<"flow", Ev.tasks, Ev.audit>>)

Init == l = 1 /\ s = [payload |-> 0, dobj |-> FALSE, mobj |-> FALSE, data |-> <<>>, meta |-> <<>>] /\ rest = 0
Next == Begin \/ Start \/ Step \/ Flow
Spec == Init /\ [][Next]_<<l, s, rest>>
==================================================================================
