------------------------------- MODULE TraceTotal -------------------------------
(***************************************************************************)
(* Conformance of totality (C10): every call returns a value or an error.  *)
(* A batch is n inputs; <<function, values, errors, panics>> for each      *)
(* function; first: an input that made one panic.                          *)
(***************************************************************************)
EXTENDS TraceLib
Outcome == {"value", "error"}
Batch == /\ IsEvent("Batch")
         /\ \A k \in DOMAIN Ev.fns : LET f == Ev.fns[k] IN f[4] = 0 \/ Why(<<f, Ev.first>>)
         \* every call of the batch is accounted for
         /\ \A k \in DOMAIN Ev.fns : Ev.fns[k][2] + Ev.fns[k][3] = Ev.fns[k][5]
Call == IsEvent("Call") /\ Ev.out \in Outcome
Init == l = 1
Next == Batch \/ Call
Spec == Init /\ [][Next]_l
=================================================================================
