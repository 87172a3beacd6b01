------------------------------- MODULE TraceCycle -------------------------------
(***************************************************************************)
(* Conformance of publish and parse in turn (C14).  forms: the distinct    *)
(* JSON results; from: <<place, form>> of the published XML parsed from    *)
(* each place; js, xs: numbers of the JSON and XML after each round.       *)
(***************************************************************************)
EXTENDS MXWire

Form(k) == Ev.forms[k]
First == Form(Ev.from[1][2])
Cycle == /\ IsEvent("Cycle")
         \* the place does not matter
         /\ (\A i \in DOMAIN Ev.from : Ev.from[i][2] = Ev.from[1][2]) \/ Why(<<"places differ", Ev.from>>)
         /\ (\A i \in DOMAIN Ev.js : Ev.js[i] = Ev.from[1][2]) \/ Why(<<"rounds differ (JSON)", Ev.js>>)
         \* the JSON is that of the message, and every round gives the same XML
         /\ Ev.xs[1] # 0
         /\ \/ MxJ(Ev, First) /\ \A i \in DOMAIN Ev.xs : Ev.xs[i] = Ev.xs[1]
            \/ Why(<<Ev.xs, First>>)

Init == l = 1
Next == Cycle
Spec == Init /\ [][Next]_l
================================================================================
