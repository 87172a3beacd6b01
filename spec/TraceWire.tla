------------------------------- MODULE TraceWire -------------------------------
(***************************************************************************)
(* Conformance of what the library writes and reads (C04, C05, C06).       *)
(***************************************************************************)
EXTENDS MXWire

\* C04: JSON of a bare document or header; back = the JSON of the message read back from it, eq = equal to the original
Json == /\ IsEvent("Json")
        /\ X!JObj(Ev.r, Ev.m, Ev.j) \/ Why(X!JWhy(Ev.r, Ev.m, Ev.j, ""))
        /\ Ev.eq \/ Why("read back differs")
\* numbers of 17 significant digits
JsonPrecise == /\ IsEvent("JsonPrecise")
               /\ \/ X!JObj(Ev.r, Ev.m, Ev.j) /\ Ev.eq
                  \/ XP!JObj(Ev.r, Ev.m, Ev.j) /\ Known("F-f64", "numbers of more than 15 digits change")
MxJson == /\ IsEvent("MxJson")
          /\ MxJ(Ev, Ev.j) \/ Why(<<Ev.j[2][1][1], Len(Ev.j[2])>>)
          /\ Ev.eq \/ Why("read back differs")

\* C05: tokens of the XML
XmlOk(es, os) == X!XMatch(es, os) \/ Why(X!XWhy(es, os))
\* a structure given to quick-xml directly
Xml == /\ IsEvent("Xml")
       /\ LET es == X!XElem(Ev.name, Ev.r, Ev.m)
          IN \/ X!XMatch(es, Ev.tok)
             \/ /\ XL!XMatch(es, Ev.tok)
                /\ Known("F-cr", "carriage returns in text (white space in attributes) are written unescaped")
             \/ Why(X!XWhy(es, Ev.tok))

\* the envelope: the namespaces as attributes, the header, one Document with the root element of the type
NsAttrs(e, a) == /\ Len(a) = Cardinality({k \in 1..2 : e.ns[k] # 0})
                 /\ \A k \in 1..2 : e.ns[k] # 0 =>
                      \E i \in DOMAIN a : a[i][1] = <<"xmlns", "xmlns:xsi">>[k] /\ SameText(e.ns[k], a[i][2])
MxXml == /\ IsEvent("MxXml")
         /\ LET os == Ev.tok n == Len(os)
                body == << <<"<", "AppHdr", <<>>>> >>
            IN /\ n > 2
               /\ os[1][1] = "<" /\ os[1][2] = "Envelope" /\ NsAttrs(Ev, os[1][3])
               /\ os[n][1] = ">" /\ os[n][2] = "Envelope"
               /\ XmlOk(X!XElem("AppHdr", HdrT, Ev.h) \o << <<"<", "Document", <<>>>> >>
                        \o X!XElem(DocEl(Ev.rt), DocT(Ev.rt), Ev.d) \o << <<">", "Document">> >>,
                        SubSeq(os, 2, n - 1))

\* C06: j = JSON of the message read back from the library's own XML; eq = equal to the message written
XmlBack == /\ IsEvent("XmlBack")
           /\ \/ X!JObj(Ev.r, Ev.m, Ev.j) /\ Ev.eq
              \/ XL!JObj(Ev.r, Ev.m, Ev.j) /\ ~Ev.eq /\ Known("F-trim", "white space around text values is lost when XML is read")
              \/ Why(<<Ev.eq, X!JWhy(Ev.r, Ev.m, Ev.j, "")>>)
MxXmlBack == /\ IsEvent("MxXmlBack")
             /\ (MxJ(Ev, Ev.j) /\ Ev.eq) \/ Why(<<Ev.eq, Ev.j[1]>>)

Init == l = 1
Next == Json \/ JsonPrecise \/ MxJson \/ Xml \/ MxXml \/ XmlBack \/ MxXmlBack
Spec == Init /\ [][Next]_l
===============================================================================
