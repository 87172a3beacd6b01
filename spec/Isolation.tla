-------------------------------- MODULE Isolation --------------------------------
(***************************************************************************)
(* Isolation: what an operation on an item answers is a function of the    *)
(* item.  And the ways of failing it: an implementation with hidden state, *)
(*   leak == [scope, key, policy]                                          *)
(*     scope   "process" (one memory) or "thread" (one memory per thread)  *)
(*     key     the attributes by which it recognises an item               *)
(*     policy  "first"  keeps the first answer given for a key             *)
(*             "last"   keeps the answer to the last item only             *)
(*             "once"   answers nothing when a key comes again             *)
(*             "taint"  an answer following one to a bad item with the     *)
(*                      same key contains leftovers                        *)
(*             "cross"  answers right only while no other thread with the  *)
(*                      same key has run before (first user owns it)       *)
(* A schedule is a sequence of steps <<thread, item>>; items are functions *)
(* from attributes to values.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Bad(_)      \* items whose answer reports errors

Honest(it) == <<"answer", it>>
Key(leak, it) == [a \in leak.key |-> it[a]]
Owner(leak, t) == IF leak.scope = "thread" THEN t ELSE 0
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* memory mem[<<owner, key>>] (policy last, taint: mem[owner])
Answer(leak, mem, t, it) ==
  LET k == <<Owner(leak, t), Key(leak, it)>> o == <<Owner(leak, t)>> IN
  CASE leak.policy = "first" -> IF k \in DOMAIN mem THEN mem[k] ELSE Honest(it)
    [] leak.policy = "last"  -> IF o \in DOMAIN mem /\ mem[o][1] = k THEN mem[o][2] ELSE Honest(it)
    [] leak.policy = "once"  -> IF k \in DOMAIN mem THEN <<"nothing">> ELSE Honest(it)
    [] leak.policy = "taint" -> IF o \in DOMAIN mem /\ mem[o][1] = k /\ Bad(mem[o][2][2]) THEN <<"leftover", it>> ELSE Honest(it)
    [] leak.policy = "cross" -> IF k \in DOMAIN mem /\ mem[k] # t THEN <<"nothing">> ELSE Honest(it)
Remember(leak, mem, t, it) ==
  LET k == <<Owner(leak, t), Key(leak, it)>> o == <<Owner(leak, t)>> IN
  CASE leak.policy \in {"first", "once"} -> IF k \in DOMAIN mem THEN mem ELSE Put(mem, k, Honest(it))
    [] leak.policy \in {"last", "taint"} -> Put(mem, o, <<k, Honest(it)>>)
    [] leak.policy = "cross" -> IF k \in DOMAIN mem THEN mem ELSE Put(mem, k, t)
RECURSIVE Play(_, _, _, _)
\* the leak shows in the schedule from step i on
Play(leak, mem, sched, i) ==
  IF i > Len(sched) THEN FALSE
  ELSE LET t == sched[i][1] it == sched[i][2] IN
       Answer(leak, mem, t, it) # Honest(it) \/ Play(leak, Remember(leak, mem, t, it), sched, i + 1)
Shows(leak, sched) == Play(leak, <<>>, sched, 1)

\* what a recorded run must satisfy: every answer is the reference answer of its item
Isolated(ref, steps) == \A i \in DOMAIN steps : steps[i][3] = ref[steps[i][2]]
==================================================================================
