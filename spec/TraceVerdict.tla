------------------------------ MODULE TraceVerdict ------------------------------
(***************************************************************************)
(* Conformance of verdicts (C12).  Each event is a group of inputs:        *)
(* <<what, verdict, errors, parsing, check>>                               *)
(***************************************************************************)
EXTENDS TraceLib
V == INSTANCE Verdict
Verdicts == /\ IsEvent("Verdicts")
            /\ \A k \in DOMAIN Ev.list : LET x == Ev.list[k] IN V!Agree(x[2], x[3], x[4], x[5]) \/ Why(x)
Init == l = 1
Next == Verdicts
Spec == Init /\ [][Next]_l
=================================================================================
