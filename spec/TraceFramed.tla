------------------------------ MODULE TraceFramed ------------------------------
(***************************************************************************)
(* Conformance of reading framed messages (C09).                           *)
(***************************************************************************)
EXTENDS MXWire
E == INSTANCE Envelope
NsNo(v) == IF v = 0 THEN 0 ELSE Ev.vals[v]
Framed == /\ IsEvent("Framed")
          /\ LET s == E!Reading(Ev.toks)
                 e == [rt |-> Ev.rt, h |-> Ev.h, d |-> Ev.d, ns |-> <<NsNo(s.ns[1]), NsNo(s.ns[2])>>]
             IN IF E!Complete(s) THEN MxJ(e, Ev.j) \/ Why(<<"accepted", e.ns, IF Ev.j[1] = "o" THEN Ev.j[2] ELSE Ev.j>>) ELSE Ev.j[1] = "!" \/ Why(<<"refused">>)
Init == l = 1
Next == Framed
Spec == Init /\ [][Next]_l
================================================================================
