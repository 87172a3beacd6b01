-------------------------------- MODULE MCStretch --------------------------------
(* All stretched messages, written out for replay. *)
EXTENDS GenLib
S == INSTANCE Stretch
VARIABLE k
Init == k \in S!Kinds
Next == FALSE /\ UNCHANGED k
Spec == Init /\ [][Next]_k
Written == Emit(k)
==================================================================================
