-------------------------------- MODULE MXWire --------------------------------
(***************************************************************************)
(* Wire for the real schema.  Texts are compared through their numbers:    *)
(* n > 0 is a text of the dictionary, n < 0 the event's own text           *)
(* Ev.x[-n]; an observed text is <<number, plain, numeral>> (plain: itself *)
(* if short and alphanumeric, numeral: its canonical decimal form, each    *)
(* "" otherwise).                                                          *)
(***************************************************************************)
EXTENDS MXData, TraceLib

Cp(n) == IF n > 0 THEN Dict.cps[n] ELSE Ev.x[-n]
SameText(a, b) == a = b \/ Cp(a) = Cp(b)
TextNo(f, w) == IF w > 0 THEN MXClasses[f.r].w[w] ELSE w
NumOf(w) == IF w > 100 THEN Dict.nums[Dict.numx[w - 100][2]] ELSE Dict.nums[w]
CodeOf(f, w) == Dict.enums[f.r][w]
BoolTxt(w) == IF w = 2 THEN "true" ELSE "false"

\* white space that XML readers strip from element content here (see known-findings.txt, F-trim)
XmlWs == {9, 10, 13, 32}
\* line ends as an XML processor delivers them
RECURSIVE LineEnds(_, _)
LineEnds(v, i) == IF i > Len(v) THEN <<>>
                  ELSE IF v[i] = 13 THEN IF i < Len(v) /\ v[i + 1] = 10 THEN LineEnds(v, i + 1) ELSE <<10>> \o LineEnds(v, i + 1)
                  ELSE <<v[i]>> \o LineEnds(v, i + 1)
AttrWs(v) == [i \in DOMAIN v |-> IF v[i] \in {9, 10, 13} THEN 32 ELSE v[i]]

\* text relations: as it is; after loss of outer white space; after line end normalisation
Exact(a, b) == SameText(a, b)
Trimmed(a, b) == SameText(a, b) \/ TrimW(Cp(a), XmlWs) = Cp(b)
\* the harness writes carriage returns as character references, which are not stripped
TrimmedRef(a, b) == SameText(a, b) \/ TrimW(Cp(a), XmlWs \ {13}) = Cp(b)
Normal(a, b) == SameText(a, b) \/ LineEnds(Cp(a), 1) = Cp(b) \/ AttrWs(LineEnds(Cp(a), 1)) = Cp(b)

LexJWith(Same(_, _), f, w, j) ==
  CASE f.k = "s" -> j[1] = "s" /\ Same(TextNo(f, w), j[2])
    [] f.k = "n" -> j[1] = "n" /\ j[2] = NumOf(w)
    [] f.k = "b" -> j[1] = "b" /\ j[2] = (w = 2)
    [] f.k = "e" -> j[1] = "s" /\ j[3] = CodeOf(f, w)
LexXWith(Same(_, _), f, w, o) ==
  CASE f.k = "s" -> Same(TextNo(f, w), o[1])
    [] f.k = "n" -> o[3] = NumOf(w)
    [] f.k = "b" -> o[2] = BoolTxt(w)
    [] f.k = "e" -> o[2] = CodeOf(f, w)

LexJExact(f, w, j) == LexJWith(Exact, f, w, j)
LexJTrim(f, w, j) == LexJWith(Trimmed, f, w, j)
LexJTrimRef(f, w, j) == LexJWith(TrimmedRef, f, w, j)
LexJNum(f, w, j) == LexJExact(f, w, j) \/ (f.k = "n" /\ w = Len(Dict.nums) /\ j[1] = "n")
LexXExact(f, w, o) == LexXWith(Exact, f, w, o)
LexXNorm(f, w, o) == LexXWith(Normal, f, w, o)
IsBlank(f, w) == f.k = "s" /\ Cp(TextNo(f, w)) = <<>>

X  == INSTANCE Wire WITH Types <- MXTypes, LexJ <- LexJExact, LexX <- LexXExact, Blank <- IsBlank
XL == INSTANCE Wire WITH Types <- MXTypes, LexJ <- LexJTrim, LexX <- LexXNorm, Blank <- IsBlank
XR == INSTANCE Wire WITH Types <- MXTypes, LexJ <- LexJTrimRef, LexX <- LexXNorm, Blank <- IsBlank
XP == INSTANCE Wire WITH Types <- MXTypes, LexJ <- LexJNum, LexX <- LexXExact, Blank <- IsBlank

Hdr == CHOOSE i \in DOMAIN Dict.roots : Dict.roots[i].m = "bah_pacs_008_001_08"
HdrT == Dict.roots[Hdr].r
DocRoot(rt) == Dict.roots[rt]
DocT(rt) == Dict.roots[rt].r
DocEl(rt) == Dict.roots[rt].el

\* members of the JSON form of a complete message
NsMembers(ns, names) == Cardinality({k \in 1..2 : ns[k] # 0})
HasMember(members, name, Ok(_)) == Cardinality({k \in DOMAIN members : members[k][1] = name}) = 1
                                   /\ \E k \in DOMAIN members : members[k][1] = name /\ Ok(members[k][2])
NsOk(ns, k, members, name) == IF ns[k] = 0 THEN ~\E i \in DOMAIN members : members[i][1] = name
                              ELSE HasMember(members, name, LAMBDA v : v[1] = "s" /\ SameText(ns[k], v[2]))
\* j is the JSON form of the complete message e
DocJWith(Obj(_, _, _), e, j) == /\ j[1] = "o" /\ Len(j[2]) = 1 /\ j[2][1][1] = DocEl(e.rt) /\ Obj(DocT(e.rt), e.d, j[2][1][2])
MxJWith(Obj(_, _, _), e, j) ==
  /\ j[1] = "o"
  /\ Len(j[2]) = 2 + Cardinality({k \in 1..2 : e.ns[k] # 0})
  /\ NsOk(e.ns, 1, j[2], "@xmlns") /\ NsOk(e.ns, 2, j[2], "@xmlns:xsi")
  /\ HasMember(j[2], "AppHdr", LAMBDA v : Obj(HdrT, e.h, v))
  /\ HasMember(j[2], "Document", LAMBDA v : DocJWith(Obj, e, v))

XObjJ(t, m, j) == X!JObj(t, m, j)
XRObjJ(t, m, j) == XR!JObj(t, m, j)
MxJ(e, j) == MxJWith(XObjJ, e, j)
\* what reading the harness's own XML may give
MxJRead(e, j) == MxJWith(XRObjJ, e, j)
DocJRead(e, j) == DocJWith(XRObjJ, e, j)
DocJ(e, j) == DocJWith(XObjJ, e, j)
===============================================================================
