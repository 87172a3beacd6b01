------------------------------ MODULE TraceIsolation ------------------------------
(***************************************************************************)
(* Conformance of histories (C15).  Alone: what each item answers in a     *)
(* process of its own (answers are numbered).  Run: a history in a process *)
(* of its own, steps <<thread, item, answer>>; free: threads unscheduled.  *)
(***************************************************************************)
EXTENDS TraceLib
NeverBad(it) == FALSE
I == INSTANCE Isolation WITH Bad <- NeverBad
Ref == Events[1].out
Alone == IsEvent("Alone") /\ l = 1
Run == /\ IsEvent("Run")
       /\ I!Isolated(Ref, Ev.steps) \/ Why(<<Ev.kind, Ev.names, {i \in DOMAIN Ev.steps : Ev.steps[i][3] # Ref[Ev.steps[i][2]]}>>)
Init == l = 1
Next == Alone \/ Run
Spec == Init /\ [][Next]_l
==================================================================================
