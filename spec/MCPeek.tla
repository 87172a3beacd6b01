--------------------------------- MODULE MCPeek ---------------------------------
(* All kinds of messages to peek at, written out for replay. *)
EXTENDS GenLib
P == INSTANCE Peek
VARIABLE m
Init == m \in P!Msgs
Next == FALSE /\ UNCHANGED m
Spec == Init /\ [][Next]_m
Written == Emit(m)
=================================================================================
