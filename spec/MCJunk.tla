---------------------------------- MODULE MCJunk ----------------------------------
(* Every string of up to MaxLen fragments, written out for replay. *)
EXTENDS GenLib
CONSTANT MaxLen
J == INSTANCE Junk
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E i \in DOMAIN J!Fragments : s' = Append(s, J!Fragments[i])
Spec == Init /\ [][Next]_s
Written == s # <<>> => Emit(s)
===================================================================================
