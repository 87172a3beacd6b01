-------------------------------- MODULE MCCycle --------------------------------
(***************************************************************************)
(* Publishing (write XML) and parsing (read XML, write JSON) in turn, on a *)
(* small schema: from every message, any number of rounds.                 *)
(*   Reader = "exact"  a reader that delivers texts as they are written    *)
(*   Reader = "trim"   a reader that strips plain white space around texts *)
(*                     (as quick-xml does)                                 *)
(*   Writer = "plain"  white space is written as it is                     *)
(*   Writer = "refs"   outer white space is written as references          *)
(* The property needs an exact reader or a writer of references; with a    *)
(* trimming reader and a plain writer the first round may change texts, no *)
(* later one does.  Leaves are texts: sequences over a letter and a blank. *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS Reader, Writer, Rounds

Text == << <<>>, <<"a">>, <<" ">>, <<" ", "a">>, <<"a", " ">>, <<"a", " ", "a">>, <<" ", "a", " ", "a", " ">>, <<" ", " ", "a">> >>
\* what is written for a text: characters and references
Outer(x, i) == \A k \in 1..i : x[k] = " "
Lexed(x) == [i \in DOMAIN x |-> <<IF Writer = "refs" /\ x[i] = " " /\ (Outer(x, i) \/ \A k \in i..Len(x) : x[k] = " ") THEN "ref" ELSE "char", x[i]>>]
\* what is read
Blank(a) == a = <<"char", " ">>
Read(l) == LET keep == {i \in DOMAIN l : ~Blank(l[i])}
               lo == IF Reader = "exact" THEN 1 ELSE IF keep = {} THEN Len(l) + 1 ELSE CHOOSE i \in keep : \A k \in keep : i <= k
               hi == IF Reader = "exact" THEN Len(l) ELSE IF keep = {} THEN 0 ELSE CHOOSE i \in keep : \A k \in keep : i >= k
           IN [i \in 1..(hi - lo + 1) |-> l[lo + i - 1][2]]
Again(w) == CHOOSE v \in DOMAIN Text : Text[v] = Read(Lexed(Text[w]))
Schema == <<
  << [x |-> "A", k |-> "s", o |-> 0, v |-> 0, r |-> 1], [x |-> "B", k |-> "t", o |-> 1, v |-> 1, r |-> 2], [x |-> "C", k |-> "e", o |-> 1, v |-> 0, r |-> 1] >>,
  << [x |-> "@Ccy", k |-> "s", o |-> 0, v |-> 0, r |-> 1], [x |-> "$value", k |-> "n", o |-> 0, v |-> 0, r |-> 0] >> >>
LexJEq(f, w, v) == v = w
LexXEq(f, w, v) == v = w
IsBlank(f, w) == f.k = "s" /\ w = 1
W == INSTANCE Wire WITH Types <- Schema, LexJ <- LexJEq, LexX <- LexXEq, Blank <- IsBlank
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
T == DOMAIN Text
Amts == {<< <<a>>, <<b>> >> : a \in T, b \in {1, 2}}
Ms == {<< <<a>>, b, c>> : a \in T, b \in Seqs(Amts, 1) \cup {<<x, x>> : x \in Amts}, c \in Seqs({1, 2}, 1)}

\* the reader delivers empty element content as 0 (Wire!ReadLeaf); here the empty text is leaf 1
TextIn(w) == IF w = 0 THEN 1 ELSE Again(w)
RECURSIVE Deliver(_, _)
Deliver(t, m) == [i \in DOMAIN m |-> LET f == Schema[t][i] IN
                   [k \in DOMAIN m[i] |-> IF f.k = "t" THEN Deliver(f.r, m[i][k]) ELSE IF f.k = "s" /\ f.x # "@Ccy" THEN TextIn(m[i][k]) ELSE m[i][k]]]

VARIABLES first, json, xml, n
vars == <<first, json, xml, n>>
None == <<>>
Init == first \in Ms /\ json = first /\ xml = None /\ n = 0
Publish == json # None /\ n < 2 * Rounds /\ xml' = W!ToTokens(W!Elem("R", 1, json)) /\ json' = None /\ n' = n + 1 /\ UNCHANGED first
Parse == xml # None /\ json = None /\ json' = Deliver(1, W!Read(1, W!Parse(xml, 1, <<>>))) /\ xml' = None /\ n' = n + 1 /\ UNCHANGED first
Next == Publish \/ Parse
Spec == Init /\ [][Next]_vars

Once == Deliver(1, first)
RoundInverse == json # None => json = IF n = 0 THEN first ELSE Once
Exact == Reader = "exact" \/ Writer = "refs" => Once = first
XmlStable == xml # None /\ n > 1 => xml = W!ToTokens(W!Elem("R", 1, Once))
Idempotent == Deliver(1, Once) = Once
===============================================================================
