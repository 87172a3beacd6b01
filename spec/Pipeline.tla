-------------------------------- MODULE Pipeline --------------------------------
(***************************************************************************)
(* The pipeline: a message [payload, dobj, data, mobj, meta] and the steps *)
(* parse, publish, validate, generate working on it.                       *)
(*   payload  a value                                                      *)
(*   dobj, mobj  whether data, metadata are objects (a step that has to    *)
(*            write there fails otherwise, and writes nothing)             *)
(*   data     names -> values;  meta: names -> metadata entries            *)
(* A step is [op, src, tgt, cfg]; cfg is "ok", "nosrc", "notgt" (parameter *)
(* missing or not a name) or "wrong" (not a step's configuration at all).  *)
(* What a step makes of its input is given by constants; the steps differ  *)
(* in where they find it and what they write:                              *)
(*   PayloadContent(v)  content of v taken from the payload                *)
(*   StringContent(v), WrapperContent(v)  content of v in data: v itself   *)
(*                      as text, or its member mx_message; "none" if not   *)
(*   ParseOf(c) -> <<"ok", value, entry>> or <<"!">>                       *)
(*   ValidateOf(c) -> <<"ok", value, entry>>                               *)
(*   PublishOf(v), GenerateOf(v) -> <<"ok", value>> or <<"!">>             *)
(* <<"any">> instead: whatever the step makes of it.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS PayloadContent(_), StringContent(_), WrapperContent(_), ParseOf(_), ValidateOf(_), PublishOf(_), GenerateOf(_), Null, None

Failed == <<"!">>
Has(f, k) == k \in DOMAIN f
At(f, k) == IF Has(f, k) THEN f[k] ELSE Null
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* where parse and validate find their input
Content(s, src) ==
  IF src = "payload" THEN PayloadContent(s.payload)
  ELSE IF ~s.dobj \/ ~Has(s.data, src) THEN None
  ELSE IF WrapperContent(s.data[src]) # None THEN WrapperContent(s.data[src])
  ELSE StringContent(s.data[src])

\* <<"ok", value>> or <<"ok", value, entry>> or <<"!">>, before it is known whether the result can be stored
Made(s, o) ==
  CASE o.cfg = "wrong" \/ o.cfg = "notgt" \/ (o.cfg = "nosrc" /\ o.op # "generate") -> Failed
    [] o.op = "parse"    -> IF Content(s, o.src) = None THEN Failed ELSE ParseOf(Content(s, o.src))
    [] o.op = "validate" -> IF Content(s, o.src) = None THEN Failed ELSE ValidateOf(Content(s, o.src))
    [] o.op = "publish"  -> IF s.dobj /\ Has(s.data, o.src) THEN PublishOf(s.data[o.src]) ELSE Failed   \* never the payload
    [] o.op = "generate" -> GenerateOf(s.payload)
Result(s, o) == IF s.dobj /\ (s.mobj \/ o.op \notin {"parse", "validate"}) THEN Made(s, o) ELSE Failed
Succeeds(s, o) == Result(s, o)[1] # "!"

\* metadata entry a step writes
Entry(o) == CASE o.op = "parse" -> {o.tgt} [] o.op = "validate" -> {"validation"} [] OTHER -> {}
\* state after o stored v (and entry e)
Stored(s, o, v, e) == [s EXCEPT !.data = Put(@, o.tgt, v), !.meta = IF Entry(o) = {} THEN @ ELSE Put(@, CHOOSE k \in Entry(o) : TRUE, e)]
After(s, o) == LET r == Result(s, o) IN IF r[1] = "!" THEN s ELSE Stored(s, o, r[2], IF Len(r) > 2 THEN r[3] ELSE Null)
\* change record: where, old, new
Change(s, o, v) == <<"data." \o o.tgt, At(s.data, o.tgt), v>>

\* ------------------------------------------------------------ what must hold of one step
OnlyTarget(s, o, t) ==
  /\ t.payload = s.payload /\ t.dobj = s.dobj /\ t.mobj = s.mobj
  /\ \A k \in (DOMAIN s.data \cup DOMAIN t.data) \ {o.tgt} : Has(s.data, k) /\ Has(t.data, k) /\ s.data[k] = t.data[k]
  /\ \A k \in (DOMAIN s.meta \cup DOMAIN t.meta) \ Entry(o) : Has(s.meta, k) /\ Has(t.meta, k) /\ s.meta[k] = t.meta[k]
\* ------------------------------------------------------------ what must hold of histories
\* applying the change records to what was there gives what is there
RECURSIVE Replay(_, _, _)
Replay(data, chs, k) == IF k > Len(chs) THEN data ELSE Replay([x \in DOMAIN data \cup {chs[k][1]} |-> IF x = chs[k][1] THEN chs[k][3] ELSE data[x]], chs, k + 1)
Paths(data) == [p \in {"data." \o k : k \in DOMAIN data} |-> data[CHOOSE k \in DOMAIN data : "data." \o k = p]]
\* undoing them in reverse gives what was there (a null standing for nothing)
RECURSIVE Undo(_, _, _)
Undo(data, chs, k) == IF k = 0 THEN data ELSE Undo([data EXCEPT ![chs[k][1]] = chs[k][2]], chs, k - 1)
=================================================================================
