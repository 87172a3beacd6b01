--------------------------------- MODULE MCRx ---------------------------------
(***************************************************************************)
(* The rules of single values against a second, independent definition:    *)
(* Lang(e) builds the set of all words (up to MaxLen) of an expression     *)
(* bottom-up, where Rx walks along the value.  Every expression of the     *)
(* given depth over a small alphabet is one state; on each, every word is  *)
(* judged by both.  Trimming and length codes are checked on all words.    *)
(***************************************************************************)
EXTENDS Rules
CONSTANTS MaxLen, Deep
A == {97, 10, 160}             \* a letter, a line feed, a no-break space
Words == UNION {[1..n -> A] : n \in 0..MaxLen}

Set(s) == [t |-> "set", s |-> s]
Cat(a) == [t |-> "cat", a |-> a]
Alt(a) == [t |-> "alt", a |-> a]
Rep(lo, hi, e) == [t |-> "rep", n |-> lo, m |-> hi, a |-> e]
Atoms == {Set(<<97>>), Set(<<97, 10>>), [t |-> "notnl"], Cat(<<>>)}
Bounds == {<<0, -1>>, <<1, -1>>, <<0, 1>>, <<2, 3>>, <<0, 0>>, <<2, -1>>}
Level(E, F) == {Cat(<<x, y>>) : x \in E, y \in F} \cup {Alt(<<x, y>>) : x \in E, y \in F} \cup {Rep(b[1], b[2], x) : b \in Bounds, x \in E}
L1 == Atoms \cup Level(Atoms, Atoms)
L2 == IF Deep THEN L1 \cup Level(L1, L1) ELSE L1 \cup Level(L1, Atoms)

Cut(S) == {w \in S : Len(w) <= MaxLen}
Conc(S, T) == Cut({x \o y : x \in S, y \in T})
RECURSIVE Lang(_), CatL(_, _), Pow(_, _), Closure(_, _)
CatL(a, k) == IF k > Len(a) THEN {<<>>} ELSE Conc(Lang(a[k]), CatL(a, k + 1))
Pow(S, k) == IF k = 0 THEN {<<>>} ELSE Conc(S, Pow(S, k - 1))
Closure(S, T) == LET N == T \cup Conc(T, S) IN IF N = T THEN T ELSE Closure(S, N)
Lang(e) == CASE e.t = "set" -> {<<c>> : c \in {e.s[k] : k \in DOMAIN e.s}}
             [] e.t = "notnl" -> {<<c>> : c \in A \ {10}}
             [] e.t = "cat" -> CatL(e.a, 1)
             [] e.t = "alt" -> UNION {Lang(e.a[k]) : k \in DOMAIN e.a}
             [] e.t = "rep" -> LET S == Lang(e.a) IN IF e.m = -1 THEN Conc(Pow(S, e.n), Closure(S, {<<>>})) ELSE UNION {Pow(S, k) : k \in e.n..e.m}

VARIABLE e
Init == e \in L2
Next == FALSE /\ UNCHANGED e
Spec == Init /\ [][Next]_e

\* the two definitions agree
SameMeaning == LET L == Lang(e) IN \A w \in Words : FullMatch(e, w) = (w \in L)
\* trimming: nothing at the ends left to trim, nothing else removed, idempotent
TrimOk == e = Cat(<<>>) => \A w \in Words :
            LET t == Trim(w) IN
            /\ t = <<>> \/ (t[1] \notin White /\ t[Len(t)] \notin White)
            /\ \E i, j \in 0..Len(w) : /\ t = SubSeq(w, i + 1, j)
                                       /\ \A k \in DOMAIN w : (k <= i \/ k > j) => w[k] \in White
            /\ Trim(t) = t
\* a value breaks at most one length bound where they are in order, and exactly the bound it is beyond
LengthOk == e = Cat(<<>>) => \A w \in Words, lo \in 0..2, hi \in 1..3 : lo <= hi =>
              LET c == LengthCodes([min |-> lo, max |-> hi, pat |-> 0], w)
              IN c = IF Len(w) < lo THEN <<TooShort>> ELSE IF Len(w) > hi THEN <<TooLong>> ELSE <<>>
\* the pattern rule sees the trimmed value, the length rule the value as it is
RuleOk == \A w \in Words : PatternCodes(<<[ast |-> e]>>, [min |-> 0, max |-> 0, pat |-> 1], w) = PatternCodes(<<[ast |-> e]>>, [min |-> 0, max |-> 0, pat |-> 1], Trim(w))
=================================================================================
