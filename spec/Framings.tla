-------------------------------- MODULE Framings --------------------------------
(***************************************************************************)
(* Ways of framing one message: every framing differs from the plain one   *)
(* in at most MaxDev respects.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
E == INSTANCE Envelope

NValues == 8        \* attribute values, see harness/src/frame.rs
Plain == "dq"
A(n, v) == <<n, v, Plain>>
\* any number of attributes, and a namespace as the last of them
Several(n, v) == [i \in 1..n |-> A("a" \o ToString(i), ((i + v) % 4) + 1)] \o << A("xmlns", v) >>
\* attribute lists of a framing element
AttrLists == << <<>>,
   << A("xmlns", 1) >>, << A("xmlns:xsi", 2) >>, << A("xmlns", 1), A("xmlns:xsi", 2) >>, << A("xmlns:xsi", 2), A("xmlns", 3) >>,
   << <<"xmlns", 3, "sq">> >>, << <<"xmlns", 1, "spaced">>, <<"xmlns:xsi", 2, "lines">> >>,
   << A("xmlns:h", 1) >>, << A("data-xmlns", 4), A("xmlns:xsi", 4) >>, << <<"xsi:schemaLocation", 5, "lines">>, A("xmlns", 4) >>,
   << A("xmlns", 5) >>, << A("note", 6), A("xmlns", 1) >>, << <<"note", 7, "sq">>, <<"xmlns:xsi", 8, "sq">> >>, << A("note", 8), A("xmlns", 7) >>,
   << A("xmlns", 6), A("xmlns:x", 3) >>, << <<"xmlns", 1, "crlf">>, <<"xmlns:xsi", 2, "tab">> >>, << <<"note", 7, "eqlines">>, <<"xmlns", 4, "eqlines">> >>,
   << <<"xmlns:xsi", 5, "sqfar">> >>, << A("xmlns:xsd", 2), <<"xmlns", 8, "far">> >>,
   << <<"xmlns", 1, "refs">>, <<"xmlns:xsi", 8, "refs">> >>,
   Several(7, 1), Several(40, 4) >>
Wrappers == <<"", "Envelope", "Message", "DocumentSet", "Documents", "AppHdrs", "BizMsgEnvlp", "RequestPayload", "Envelopes", "E">>
WsKinds == 7
\* dimensions of an enveloped message, with the number of choices; choice 1 is the plain one
Dims == << [n |-> "decl", k |-> 6], [n |-> "ws0", k |-> WsKinds], [n |-> "wrap", k |-> Len(Wrappers)], [n |-> "wattr", k |-> Len(AttrLists)], [n |-> "ws1", k |-> WsKinds],
           [n |-> "hattr", k |-> Len(AttrLists)], [n |-> "ws2", k |-> WsKinds], [n |-> "dattr", k |-> Len(AttrLists)], [n |-> "ws3", k |-> WsKinds],
           [n |-> "rattr", k |-> Len(AttrLists)], [n |-> "ws4", k |-> WsKinds], [n |-> "ws5", k |-> WsKinds], [n |-> "ws6", k |-> WsKinds], [n |-> "part", k |-> 10] >>
D == DOMAIN Dims
Ix(n) == CHOOSE i \in D : Dims[i].n = n
\* choices with exactly the dimensions in S different from plain
Varied(S) == {c \in [S -> 2..Len(AttrLists)] : \A i \in S : c[i] <= Dims[i].k}
Choice(c) == [i \in D |-> IF i \in DOMAIN c THEN c[i] ELSE 1]

\* between elements: nothing, white space (three kinds), a comment, a processing instruction, all of them
Ws(k) == CASE k = 1 -> <<>>
           [] k = 5 -> << <<"note", 1>> >>
           [] k = 6 -> << <<"note", 2>> >>
           [] k = 7 -> << <<"ws", 3>>, <<"note", 1>>, <<"note", 2>>, <<"ws", 2>>, <<"note", 1>> >>
           [] OTHER -> << <<"ws", k>> >>
Decl(k) == IF k = 1 THEN <<>> ELSE << <<"decl", k>> >>
End(part) == IF part = 9 THEN <<>> ELSE << <<"close", "Document">> >>   \* 9: document that does not end
Tokens(c) ==
  LET g(n) == c[Ix(n)]
      wrap == Wrappers[IF g("wrap") = 1 THEN 2 ELSE IF g("wrap") = 2 THEN 1 ELSE g("wrap")]
      hdr == <<"open", "AppHdr", AttrLists[g("hattr")]>>
      doc == <<"open", "Document", AttrLists[g("dattr")]>>
      root(n) == << <<"root", n, AttrLists[g("rattr")]>> >>
      H == CASE g("part") = 2 -> <<>>                                   \* no header
             [] g("part") = 3 -> << hdr, <<"close", "AppHdr">> >>       \* empty header
             [] g("part") = 10 -> << hdr, <<"hdr">> >>                  \* header that does not end
             [] OTHER -> << hdr, <<"hdr">>, <<"close", "AppHdr">> >>
      R == CASE g("part") = 4 -> <<>>
             [] g("part") = 5 -> root("Unknown")
             [] g("part") = 6 -> root("~")                              \* the root element's name and one character more
             [] g("part") = 7 -> root("^")                              \* without its last character
             [] OTHER -> root("")
      Dc == CASE g("part") = 8 -> <<>>                                  \* no document
              [] OTHER -> << doc >> \o Ws(g("ws3")) \o R \o Ws(g("ws4")) \o End(g("part"))
      body == Ws(g("ws1")) \o H \o Ws(g("ws2")) \o Dc \o Ws(g("ws5"))
  IN Decl(g("decl")) \o Ws(g("ws0"))
     \o (IF wrap = "" THEN body ELSE << <<"open", wrap, AttrLists[g("wattr")]>> >> \o body \o << <<"close", wrap>> >>)
     \o Ws(g("ws6"))
\* the document alone
BareTokens(c) ==
  LET g(n) == c[Ix(n)]
      root(n) == << <<"root", n, AttrLists[g("rattr")]>> >>
  IN Decl(g("decl")) \o Ws(g("ws0")) \o << <<"open", "Document", AttrLists[g("dattr")]>> >> \o Ws(g("ws3"))
     \o (CASE g("part") = 4 -> <<>> [] g("part") = 5 -> root("Unknown") [] g("part") = 6 -> root("~") [] g("part") = 7 -> root("^") [] OTHER -> root(""))
     \o Ws(g("ws4")) \o End(g("part")) \o Ws(g("ws6"))
\* ---------------------------------------------------------------- framings with any number of deviations
\* a message nested in up to three wrappers, with foreign elements beside the header and the document; a choice is a sequence of numbers
ForeignAttrs == << <<>>, << A("xmlns:h", 1) >>, << <<"note", 6, "sq">> >>, << A("data-xmlns", 4), <<"note", 7, "lines">> >> >>
ForeignNames == <<"Foreign", "AppHdrs", "AppHdrX", "DocumentSet", "Documents", "Hdr", "Doc", "BizSvc", "D">>
ForeignText == <<"", "x", "&lt;Document&gt;&lt;/Document&gt;", "&lt;/AppHdr>", " &amp;lt; AppHdr ", "]]]&gt;">>
Pick(sq, k) == sq[(k % Len(sq)) + 1]
WsD(k) == CASE k % 4 = 0 -> IF k % 7 = 0 THEN <<>> ELSE << <<"ws", (k % 7) + 1>> >>
            [] k % 4 = 1 -> Ws((k % WsKinds) + 1)
            [] OTHER -> <<>>
Foreign(k) == IF k % 3 # 0 THEN <<>>
              ELSE LET n == Pick(ForeignNames, k) IN
                   << <<"open", n, Pick(ForeignAttrs, k \div 3)>> >>
                   \o (IF k % 5 = 0 THEN << <<"open", "Inner", Pick(ForeignAttrs, k \div 7)>>, <<"close", "Inner">> >> ELSE << <<"text", Pick(ForeignText, k \div 2)>> >>)
                   \o << <<"close", n>> >>
DeepLen == 24
NamedWrappers == SelectSeq(Wrappers, LAMBDA w : w # "")
RECURSIVE Wrapped(_, _, _)
Wrapped(c, n, body) == IF n = 0 THEN body
                       ELSE LET w == Pick(NamedWrappers, c[n]) IN
                            << <<"open", w, Pick(AttrLists, c[n + 3])>> >> \o WsD(c[n + 6]) \o Wrapped(c, n - 1, body) \o WsD(c[n + 9]) \o << <<"close", w>> >>
\* far down, and after a great many others
RECURSIVE Layers(_, _)
Layers(n, body) == IF n = 0 THEN body ELSE << <<"open", "Layer", <<>>>> >> \o Layers(n - 1, body) \o << <<"close", "Layer">> >>
RECURSIVE Crowd(_, _)
Crowd(n, c) == IF n = 0 THEN <<>> ELSE Foreign(3 * (c + n)) \o Crowd(n - 1, c)
DeepTokens(c) ==
  LET part == IF c[24] % 4 = 0 THEN 2 + ((c[24] \div 4) % 9) ELSE 1
      hdr == <<"open", "AppHdr", Pick(AttrLists, c[13])>>
      root(n) == << <<"root", n, Pick(AttrLists, c[14])>> >>
      H == CASE part = 2 -> <<>> [] part = 3 -> << hdr, <<"close", "AppHdr">> >> [] part = 10 -> << hdr, <<"hdr">> >> [] OTHER -> << hdr, <<"hdr">>, <<"close", "AppHdr">> >>
      R == CASE part = 4 -> <<>> [] part = 5 -> root("Unknown") [] part = 6 -> root("~") [] part = 7 -> root("^") [] OTHER -> root("")
      Dc == IF part = 8 THEN <<>> ELSE << <<"open", "Document", Pick(AttrLists, c[15])>> >> \o WsD(c[16]) \o R \o WsD(c[17]) \o End(part)
      body == Foreign(c[18]) \o WsD(c[19]) \o H \o Foreign(c[20]) \o WsD(c[21]) \o Dc \o WsD(c[22]) \o Foreign(c[23])
  IN Decl((c[10] % 6) + 1) \o WsD(c[11]) \o Wrapped(c, 1 + (c[12] % 3), IF c[9] % 16 = 5 THEN Layers(c[8] % 60, Crowd(c[7] % 30, c[6]) \o body) ELSE body) \o WsD(c[19])
=================================================================================
