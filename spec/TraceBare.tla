-------------------------------- MODULE TraceBare --------------------------------
(***************************************************************************)
(* Conformance of reading bare documents (C17).                            *)
(*  Bare:   tokens of a bare document, and what the converter (jb), the    *)
(*          parsing step (js) and reading the enveloped form (je) gave     *)
(*  BareFaults: <<fault, converter, parsing step, enveloped, same value>>  *)
(*  Unsupported: <<type asked for, outcome>>                               *)
(***************************************************************************)
EXTENDS TraceLib
E == INSTANCE Envelope
Ok(j) == j[1] # "!"
Bare == /\ IsEvent("Bare")
        /\ LET good == E!Bare(E!Reading(Ev.toks))
           IN /\ Ok(Ev.je) = good \/ Why(<<"enveloped", good, Ev.je>>)
              /\ Ok(Ev.jb) = Ok(Ev.je) \/ Why(<<"converter", Ev.jb>>)
              /\ Ok(Ev.js) = Ok(Ev.je) \/ Why(<<"parsing step", Ev.js>>)
              /\ good => (Ev.jb = Ev.je /\ Ev.js = Ev.je) \/ Why(<<"different">>)
BareFaults == /\ IsEvent("BareFaults")
              /\ \A k \in DOMAIN Ev.list :
                   LET x == Ev.list[k]
                   IN (x[2] \in {"ok", "error"} /\ x[3] = x[2] /\ x[4] = x[2] /\ (x[2] = "ok" => x[5])) \/ Why(x)
Unsupported == IsEvent("Unsupported") /\ \A k \in DOMAIN Ev.list : Ev.list[k][2] = "error" \/ Why(Ev.list[k])
Init == l = 1
Next == Bare \/ BareFaults \/ Unsupported
Spec == Init /\ [][Next]_l
==================================================================================
