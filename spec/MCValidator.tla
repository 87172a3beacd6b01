------------------------------ MODULE MCValidator -----------------------------
(* A schema with every construct of the real ones: mandatory, optional and repeating text, numbers, nested mandatory,
   optional and repeating structures, and an optional structure inside an optional one. *)
EXTENDS Naturals, Sequences

F(x, k, o, v, r) == [x |-> x, k |-> k, o |-> o, v |-> v, r |-> r]
MCTypes == << <<F("A", "s", 0, 0, 1), F("B", "t", 1, 0, 2), F("C", "t", 0, 1, 3), F("N", "n", 1, 0, 0)>>,
              <<F("D", "s", 1, 1, 2), F("E", "t", 0, 0, 3), F("O", "t", 1, 1, 3)>>,
              <<F("F", "s", 0, 0, 3), F("G", "n", 0, 0, 0)>> >>
MCLeaf == << << <<>>, <<1002, 1005>> >>, << <<>>, <<1005>> >>, << <<>>, <<1001>> >> >>
MCCodes(c, w) == MCLeaf[c][w]

RECURSIVE Trees(_)
Instances(f) == IF f.k = "s" THEN DOMAIN MCLeaf[f.r] ELSE IF f.k = "n" THEN {1} ELSE Trees(f.r)
FieldVals(f) ==
  LET S == Instances(f) IN
  (IF f.o = 1 THEN {<<>>} ELSE {}) \cup {<<x>> : x \in S}
    \cup (IF (f.v = 1 /\ f.o = 0) \/ f.x = "D" THEN {<<x, y>> : x, y \in S} ELSE {})
RECURSIVE Product(_, _)
Product(fs, k) == IF k = 0 THEN {<<>>} ELSE {Append(p, v) : p \in Product(fs, k - 1), v \in FieldVals(fs[k])}
Trees(t) == Product(MCTypes[t], Len(MCTypes[t]))

VARIABLES cfg, todo, done, stack, col
CONSTANT MCMax
INSTANCE Validator WITH Types <- MCTypes, Codes <- MCCodes, Root <- 1, Messages <- Trees, MaxMessages <- MCMax
=============================================================================
