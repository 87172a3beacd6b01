------------------------------- MODULE MCIsolation -------------------------------
(***************************************************************************)
(* All short schedules over a small set of items, up to renaming, written  *)
(* out for replay; and they are enough: every leak of the family (any key, *)
(* scope and policy that can be wrong at all) shows in one of them.        *)
(***************************************************************************)
EXTENDS GenLib, FiniteSets
CONSTANTS MaxLen, Threads
Attrs == {"ty", "op", "hdr", "doc"}
Items == [Attrs -> {1, 2}]
IsBad(it) == it["doc"] = 2
I == INSTANCE Isolation WITH Bad <- IsBad

Leaks == {[scope |-> s, key |-> k, policy |-> p] : s \in {"process", "thread"}, k \in SUBSET Attrs, p \in {"first", "last", "once", "taint", "cross"}}
\* keeping answers under the whole item, and ownership per thread, are harmless
Harmful(x) == /\ x.policy \in {"first", "last"} => x.key # Attrs
              /\ x.policy = "cross" => x.scope = "process"

\* up to renaming: threads, types and operations are numbered by first appearance
Canon(sch) == \A c \in {"ty", "op"} : \A i \in DOMAIN sch : sch[i][2][c] = 2 => \E j \in 1..(i - 1) : sch[j][2][c] = 1
CanonT(sch) == \A i \in DOMAIN sch : sch[i][1] = 1 \/ \E j \in 1..(i - 1) : sch[j][1] = sch[i][1] - 1
\* beyond two steps: back to something seen before
Worth(sch) == Len(sch) <= 2 \/ sch[Len(sch)][2] \in {sch[i][2] : i \in 1..(Len(sch) - 1)}

VARIABLE sched
Init == sched = <<>>
Next == Len(sched) < MaxLen /\ \E t \in 1..Threads, it \in Items :
          LET s == Append(sched, <<t, it>>) IN Canon(s) /\ CanonT(s) /\ Worth(s) /\ sched' = s
Spec == Init /\ [][Next]_sched

Sched2 == LET One == {1..Threads} IN {<< <<1, a>>, <<t, b>> >> : t \in 1..Threads, a \in Items, b \in Items}
Sufficient == \A x \in Leaks : Harmful(x) => \E sch \in Sched2 : Canon(sch) /\ CanonT(sch) /\ I!Shows(x, sch)
HarmlessQuiet == \A x \in Leaks : ~Harmful(x) => \A sch \in Sched2 : ~I!Shows(x, sch)
ASSUME Sufficient
ASSUME HarmlessQuiet
Written == Len(sched) >= 2 => Emit([i \in DOMAIN sched |-> <<sched[i][1], sched[i][2]["ty"], sched[i][2]["op"], sched[i][2]["hdr"], sched[i][2]["doc"]>>])
==================================================================================
