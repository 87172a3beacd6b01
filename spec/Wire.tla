--------------------------------- MODULE Wire ---------------------------------
(***************************************************************************)
(* The wire formats: what a message tree (see Walk) looks like in JSON and *)
(* in XML, and how XML is read back.                                       *)
(*                                                                         *)
(* JSON: an object has exactly one member per present field, named after   *)
(*   the element; a repeating field's value is an array.                   *)
(*     value ::= <<"o", << <<name, value>>, ... >> >>  object              *)
(*             | <<"a", <<value, ...>> >> | leaf                           *)
(* XML: an element's attributes are the fields named "@..."; its content   *)
(*   is the text of the field "$value", or the elements of the remaining   *)
(*   fields in schema order, instance by instance.                         *)
(*     token ::= <<"<", name, attributes>> | <<">", name>> | <<"t", ...>>  *)
(*                                                                         *)
(* Observed leaves are compared by the parameters                          *)
(*   LexJ(f, w, v): JSON value v denotes leaf w of field f                 *)
(*   LexX(f, w, o): XML text o (token) denotes leaf w of field f           *)
(*   Blank(f, w):   the lexical form of the leaf is the empty string       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

CONSTANTS Types, LexJ(_, _, _), LexX(_, _, _), Blank(_, _)

IsAttr(f) == f.x = "@Ccy"
IsText(f) == f.x = "$value"
AttrName(f) == "Ccy"

Present(m) == {i \in DOMAIN m : m[i] # <<>>}

\* ------------------------------------------------------------------ JSON
RECURSIVE JObj(_, _, _)
JVal(f, w, j) == IF f.k = "t" THEN JObj(f.r, w, j) ELSE LexJ(f, w, j)
JField(f, insts, members) ==
  LET mine == {k \in DOMAIN members : members[k][1] = f.x}
  IN IF insts = <<>> THEN mine = {}
     ELSE /\ Cardinality(mine) = 1
          /\ LET v == members[CHOOSE k \in mine : TRUE][2]
             IN IF f.v = 1
                THEN /\ v[1] = "a" /\ Len(v[2]) = Len(insts)
                     /\ \A i \in DOMAIN insts : JVal(f, insts[i], v[2][i])
                ELSE Len(insts) = 1 /\ JVal(f, insts[1], v)
\* j is the JSON form of message m of type t
JObj(t, m, j) ==
  /\ j[1] = "o"
  /\ Len(j[2]) = Cardinality(Present(m))
  /\ \A i \in DOMAIN Types[t] : JField(Types[t][i], m[i], j[2])

\* where j departs from the JSON form (diagnosis only)
RECURSIVE JWhy(_, _, _, _)
JWhyVal(f, w, j, p) == IF f.k = "t" THEN JWhy(f.r, w, j, p) ELSE IF LexJ(f, w, j) THEN {} ELSE {<<p, w, ToString(j)>>}
JWhyField(f, insts, members, p) ==
  LET mine == {k \in DOMAIN members : members[k][1] = f.x}
  IN IF JField(f, insts, members) THEN {}
     ELSE IF insts = <<>> \/ Cardinality(mine) # 1 THEN {<<p, "present", Len(insts), Cardinality(mine)>>}
     ELSE LET v == members[CHOOSE k \in mine : TRUE][2]
          IN IF f.v = 1
             THEN IF v[1] # "a" THEN {<<p, "no array">>} ELSE IF Len(v[2]) # Len(insts) THEN {<<p, "length", Len(insts), Len(v[2])>>}
                  ELSE UNION {JWhyVal(f, insts[i], v[2][i], p) : i \in DOMAIN insts}
             ELSE JWhyVal(f, insts[1], v, p)
JWhy(t, m, j, p) ==
  IF j[1] # "o" THEN {<<p, "no object", ToString(j)>>}
  ELSE IF Len(j[2]) > Cardinality(Present(m)) THEN {<<p, "extra members", ToString([k \in DOMAIN j[2] |-> j[2][k][1]])>>}
  ELSE UNION {JWhyField(Types[t][i], m[i], j[2], p \o "." \o Types[t][i].x) : i \in DOMAIN Types[t]}

\* ------------------------------------------------------------------- XML
LeafTok(f, w) == IF Blank(f, w) THEN <<>> ELSE << <<"t", f, w>> >>
RECURSIVE XElem(_, _, _)
XInst(f, w) == IF f.k = "t" THEN XElem(f.x, f.r, w)
               ELSE << <<"<", f.x, <<>>>> >> \o LeafTok(f, w) \o << <<">", f.x>> >>
XField(f, insts) ==
  IF IsAttr(f) THEN <<>>
  ELSE IF IsText(f) THEN FlattenSeq([k \in DOMAIN insts |-> LeafTok(f, insts[k])])
  ELSE FlattenSeq([k \in DOMAIN insts |-> XInst(f, insts[k])])
XAttrs(t, m) ==
  FlattenSeq([i \in DOMAIN Types[t] |-> IF IsAttr(Types[t][i])
              THEN [k \in DOMAIN m[i] |-> <<AttrName(Types[t][i]), Types[t][i], m[i][k]>>] ELSE <<>>])
\* the tokens of message m of type t as an element called name
XElem(name, t, m) ==
  << <<"<", name, XAttrs(t, m)>> >>
  \o FlattenSeq([i \in DOMAIN Types[t] |-> XField(Types[t][i], m[i])])
  \o << <<">", name>> >>

\* observed token o is expected token e
TokOk(e, o) ==
  /\ e[1] = o[1]
  /\ CASE e[1] = ">" -> e[2] = o[2]
       [] e[1] = "t" -> LexX(e[2], e[3], <<o[2], o[3], o[4]>>)
       [] e[1] = "<" -> /\ e[2] = o[2]
                        /\ Len(e[3]) = Len(o[3])
                        /\ \A i \in DOMAIN e[3] : \E k \in DOMAIN o[3] :
                             /\ o[3][k][1] = e[3][i][1]
                             /\ LexX(e[3][i][2], e[3][i][3], <<o[3][k][2], o[3][k][3], o[3][k][4]>>)
XMatch(es, os) == Len(es) = Len(os) /\ \A i \in DOMAIN es : TokOk(es[i], os[i])

\* first token where they differ (diagnosis only)
XWhy(es, os) == LET bad == {i \in DOMAIN es : i > Len(os) \/ ~TokOk(es[i], os[i])}
                    k == IF bad = {} THEN Len(es) + 1 ELSE CHOOSE i \in bad : \A n \in bad : i <= n
                IN <<k, IF k <= Len(es) THEN ToString(es[k]) ELSE "end", IF k <= Len(os) THEN ToString(os[k]) ELSE "end">>

\* -------------------------------------------------------------- structure
\* leaves numbered below 1 stand for texts outside the accepted domain of codes, numbers and indicators;
\* any text is structurally acceptable for a text field
LeafIn(f, w) == f.k = "s" \/ w >= 1
RECURSIVE Shaped(_, _)
ShapedField(f, insts) ==
  /\ f.o = 0 => insts # <<>>
  /\ f.v = 0 => Len(insts) <= 1
  /\ \A i \in DOMAIN insts : IF f.k = "t" THEN Shaped(f.r, insts[i]) ELSE LeafIn(f, insts[i])
Shaped(t, m) == \A i \in DOMAIN Types[t] : ShapedField(Types[t][i], m[i])

\* ---------------------------------------------------------------- reading
\* an element as a reader meets it: [n |-> name, a |-> <<<<name, w>>...>>, c |-> <<children>>, s |-> <<texts>>]
\* (leaves carry their number: lexical forms are the parameters' business)
RECURSIVE Elem(_, _, _)
LeafElem(f, w) == [n |-> f.x, a |-> <<>>, c |-> <<>>, s |-> IF Blank(f, w) THEN <<>> ELSE <<w>>]
Elem(name, t, m) ==
  [n |-> name,
   a |-> FlattenSeq([i \in DOMAIN Types[t] |-> IF IsAttr(Types[t][i]) THEN [k \in DOMAIN m[i] |-> <<AttrName(Types[t][i]), m[i][k]>>] ELSE <<>>]),
   c |-> FlattenSeq([i \in DOMAIN Types[t] |-> IF IsAttr(Types[t][i]) \/ IsText(Types[t][i]) THEN <<>>
            ELSE [k \in DOMAIN m[i] |-> IF Types[t][i].k = "t" THEN Elem(Types[t][i].x, Types[t][i].r, m[i][k]) ELSE LeafElem(Types[t][i], m[i][k])]]),
   s |-> FlattenSeq([i \in DOMAIN Types[t] |-> IF IsText(Types[t][i]) THEN SelectSeq(m[i], LAMBDA w : ~Blank(Types[t][i], w)) ELSE <<>>])]

RECURSIVE ToTokens(_)
ToTokens(e) == << <<"<", e.n, e.a>> >> \o [k \in DOMAIN e.s |-> <<"t", e.s[k]>>] \o FlattenSeq([k \in DOMAIN e.c |-> ToTokens(e.c[k])]) \o << <<">", e.n>> >>

\* parser with an explicit stack: partial elements, innermost last.  Result: an element, or [n |-> "ill-formed"]
Ill == [n |-> "ill-formed", a |-> <<>>, c |-> <<>>, s |-> <<>>]
RECURSIVE Parse(_, _, _)
Parse(toks, k, stack) ==
  IF k > Len(toks) THEN Ill
  ELSE LET t == toks[k] top == stack[Len(stack)] below == SubSeq(stack, 1, Len(stack) - 1)
       IN CASE t[1] = "<" -> Parse(toks, k + 1, Append(stack, [n |-> t[2], a |-> t[3], c |-> <<>>, s |-> <<>>]))
            [] t[1] = "t" -> IF stack = <<>> THEN Ill ELSE Parse(toks, k + 1, Append(below, [top EXCEPT !.s = Append(@, t[2])]))
            [] t[1] = ">" -> IF stack = <<>> \/ top.n # t[2] THEN Ill
                             ELSE IF below = <<>> THEN IF k = Len(toks) THEN top ELSE Ill
                             ELSE Parse(toks, k + 1, Append(SubSeq(below, 1, Len(below) - 1), [below[Len(below)] EXCEPT !.c = Append(@, top)]))

\* typed reading: a message, or Refused.  Unknown elements are ignored, order among different elements is free.
Refused == <<"refused">>
RECURSIVE Read(_, _)
ReadLeaf(f, e) == IF e.s = <<>> THEN 0 ELSE e.s[1]   \* 0: the empty text
ReadField(f, e) ==
  IF IsAttr(f) THEN LET xs == SelectSeq(e.a, LAMBDA p : p[1] = AttrName(f)) IN [k \in DOMAIN xs |-> xs[k][2]]
  ELSE IF IsText(f) THEN e.s
  ELSE LET xs == SelectSeq(e.c, LAMBDA x : x.n = f.x)
       IN [k \in DOMAIN xs |-> IF f.k = "t" THEN Read(f.r, xs[k]) ELSE ReadLeaf(f, xs[k])]
Read(t, e) ==
  LET m == [i \in DOMAIN Types[t] |-> ReadField(Types[t][i], e)]
      bad(i) == LET f == Types[t][i] IN
                \/ f.o = 0 /\ m[i] = <<>>
                \/ f.v = 0 /\ Len(m[i]) > 1
                \/ \E k \in DOMAIN m[i] : IF f.k = "t" THEN m[i][k] = Refused ELSE ~LeafIn(f, m[i][k])
  IN IF \E i \in DOMAIN m : bad(i) THEN Refused ELSE m
===============================================================================
