-------------------------------- MODULE TracePeek --------------------------------
(***************************************************************************)
(* Conformance of type peeking (C11).  Each event is a message (its header *)
(* perhaps without identifier) and every answer to the question what type  *)
(* it is: peeking at its XML and at its JSON, reading it from either, and  *)
(* the pipeline's parse step.  A string travels as <<string, number>>, the *)
(* number being checked against the message.                               *)
(***************************************************************************)
EXTENDS MXWire
Reg == SelectSeq(Dict.roots, LAMBDA r : r.mt # "")
Rows == [i \in DOMAIN Reg |-> [short |-> Reg[i].mt, full |-> Reg[i].full, el |-> Reg[i].el, rust |-> Reg[i].t]]
R == INSTANCE Registry WITH Table <- Rows

IdrIx == CHOOSE i \in DOMAIN MXTypes[HdrT] : MXTypes[HdrT][i].x = "MsgDefIdr"
Idr == Ev.h[IdrIx]
IdrNo == TextNo(MXTypes[HdrT][IdrIx], Idr[1])
Err == "!"
Answer(s) == <<"ok", s>>
\* an identifier that is blank may be taken for a missing one when peeking at XML
Same(got, s) == got = Answer(R!Normalize(s)) \/ Why(<<got, R!Normalize(s)>>)
Peek == /\ IsEvent("Peek")
        /\ IF Idr = <<>>
           THEN /\ Ev.px[1] = Err \/ Why(<<"xml peek without identifier", Ev.px>>)
                /\ Ev.pj[1] = Err \/ Why(<<"json peek without identifier", Ev.pj>>)
                /\ Ev.mx[1] = Err /\ Ev.mj[1] = Err
           ELSE /\ SameText(IdrNo, Ev.idj[2])
                \* what the XML says, where it is written such that outer white space is kept
                /\ IF Ev.kept THEN SameText(IdrNo, Ev.idx[2]) ELSE TrimW(Cp(IdrNo), XmlWs \ {13}) = Cp(Ev.idx[2])
                /\ Same(Ev.pj, Ev.idj[1])
                /\ Same(Ev.px, Ev.idx[1]) \/ (Ev.idx[1] = "" /\ Ev.px[1] = Err)
                \* what the readers say: the identifier itself, normalised by the library
                /\ Same(Ev.mj, Ev.idj[1])
                /\ Same(Ev.mx, Ev.idx[1])
                \* the pipeline's type, where header and document agree
                /\ Ev.pipe[1] = "ok"
                /\ R!Normalize(Ev.idx[1]) = DocRoot(Ev.rt).mt => Same(Ev.pipe, Ev.idx[1])
Init == l = 1
Next == Peek
Spec == Init /\ [][Next]_l
==================================================================================
