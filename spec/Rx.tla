--------------------------------- MODULE Rx ---------------------------------
(***************************************************************************)
(* Denotational semantics of the regular expressions that the ISO 20022    *)
(* schemas use as pattern facets.  A value is a sequence of code points;   *)
(* an expression is a record produced from the pattern's parse tree:       *)
(*   [t |-> "set", s |-> <<code points>>]   one character out of a class   *)
(*   [t |-> "notnl"]                        '.', any character but LF      *)
(*   [t |-> "cat", a |-> <<e1, ..., en>>]   concatenation                  *)
(*   [t |-> "alt", a |-> <<e1, ..., en>>]   alternation                    *)
(*   [t |-> "rep", n |-> lo, m |-> hi, a |-> e]   bounded repetition,      *)
(*                                          hi = -1 for unbounded          *)
(* Ends(e, v, S) is the set of positions at which a match of e can stop    *)
(* when it starts (after) one of the positions in S.  A pattern facet      *)
(* describes the whole value (XSD patterns are implicitly anchored).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Code(v, i) == v[i]

InSet(e, c) == IF e.t = "notnl" THEN c # 10 ELSE \E k \in DOMAIN e.s : e.s[k] = c

RECURSIVE Ends(_, _, _), CatEnds(_, _, _, _), Star(_, _, _), Times(_, _, _, _)

Single(e) == e.t \in {"set", "notnl"}

\* length of the longest run of characters of the one-character expression e that starts after position i
RunStop(S, v, i) ==
  LET bad == {j \in (i + 1)..Len(v) : v[j] \notin S}
  IN IF bad = {} THEN Len(v) ELSE (CHOOSE j \in bad : \A k \in bad : j <= k) - 1

CharSet(e, v) == IF e.t = "notnl" THEN {v[i] : i \in DOMAIN v} \ {10} ELSE {e.s[k] : k \in DOMAIN e.s}

Min2(a, b) == IF a < b THEN a ELSE b

Ends(e, v, S) ==
  CASE Single(e) -> {i + 1 : i \in {j \in S : j < Len(v) /\ InSet(e, v[j + 1])}}
    [] e.t = "cat" -> CatEnds(e.a, 1, v, S)
    [] e.t = "alt" -> UNION {Ends(e.a[k], v, S) : k \in DOMAIN e.a}
    [] e.t = "rep" /\ Single(e.a) ->
         LET C == CharSet(e.a, v)
         IN UNION {LET stop == RunStop(C, v, i)
                       hi == IF e.m = -1 THEN stop ELSE Min2(stop, i + e.m)
                   IN (i + e.n)..hi : i \in S}
    [] e.t = "rep" /\ ~Single(e.a) ->
         LET base == Times(e.a, v, S, e.n)
         IN IF e.m = -1 THEN Star(e.a, v, base)
            ELSE UNION {Times(e.a, v, base, k) : k \in 0..(e.m - e.n)}

CatEnds(a, k, v, S) == IF k > Len(a) \/ S = {} THEN S ELSE CatEnds(a, k + 1, v, Ends(a[k], v, S))
Times(e, v, S, k) == IF k = 0 THEN S ELSE Times(e, v, Ends(e, v, S), k - 1)
Star(e, v, S) == LET N == Ends(e, v, S) IN IF N \subseteq S THEN S ELSE Star(e, v, S \cup N)

\* the whole value matches
FullMatch(e, v) == Len(v) \in Ends(e, v, {0})

\* Unicode White_Space, as removed by trimming before a pattern is applied
White == {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8192, 8193, 8194, 8195, 8196, 8197, 8198, 8199, 8200, 8201, 8202,
          8232, 8233, 8239, 8287, 12288}
TrimW(v, Ws) ==
  LET keep == {i \in DOMAIN v : v[i] \notin Ws}
  IN IF keep = {} THEN <<>>
     ELSE SubSeq(v, CHOOSE i \in keep : \A k \in keep : i <= k, CHOOSE i \in keep : \A k \in keep : i >= k)
Trim(v) == TrimW(v, White)
=============================================================================
