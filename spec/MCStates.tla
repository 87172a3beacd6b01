-------------------------------- MODULE MCStates --------------------------------
(* All message states and configurations, written out for replay. *)
EXTENDS GenLib
S == INSTANCE States
VARIABLE s
Init == s \in S!All
Next == FALSE /\ UNCHANGED s
Spec == Init /\ [][Next]_s
Written == Emit(s)
=================================================================================
