------------------------------ MODULE MCCollector ------------------------------
(***************************************************************************)
(* All histories of one error collector up to MaxOps operations, written   *)
(* out for replay, and the agreement of its observations with its history. *)
(***************************************************************************)
EXTENDS GenLib, FiniteSets
CONSTANTS MaxOps, NErr
C == INSTANCE Collector

VARIABLES col, hist
vars == <<col, hist>>

Ops == {"add", "crit"} \X (1..NErr)
Init == col = C!Empty /\ hist = <<>>
Do(op) == /\ Len(hist) < MaxOps
          /\ col' = IF op[1] = "add" THEN C!Add(col, op[2]) ELSE C!AddCritical(col, op[2])
          /\ hist' = Append(hist, op)
Next == \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars

\* the observations say exactly what was added
Agrees == /\ C!Errors(col) = [i \in DOMAIN hist |-> hist[i][2]]
          /\ C!Count(col) = Len(hist)
          /\ C!HasErrors(col) <=> hist # <<>>
          /\ C!HasCritical(col) <=> \E i \in DOMAIN hist : hist[i][1] = "crit"
\* nothing that was added disappears
Grows == [][/\ SubSeq(C!Errors(col'), 1, Len(C!Errors(col))) = C!Errors(col)
            /\ C!HasCritical(col) => C!HasCritical(col')]_vars

Written == Len(hist) = MaxOps => Emit(hist)
=============================================================================
