-------------------------------- MODULE Walk ---------------------------------
(***************************************************************************)
(* Validation of a message tree, stated as a function of the tree.         *)
(*                                                                         *)
(* A schema is a table Types of structures; a structure is a sequence of   *)
(* fields [x |-> element name, k |-> kind, o |-> optional?, v |-> repeats?,*)
(* r |-> reference] with kind "s" text (r = leaf class), "n" number,       *)
(* "b" boolean, "e" code (enumeration), "t" structure (r = type).          *)
(* An instance of a structure is a sequence with, per field, the sequence  *)
(* of that field's instances: <<>> absent, <<x>> present, longer if it     *)
(* repeats.  A text instance is the index of the value in the class's      *)
(* value list; Codes(class, value) are the rules it breaks.                *)
(*                                                                         *)
(* An error is <<code, element, path>>; the path names the elements from   *)
(* the root, separated by ".", without positions.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt

CONSTANTS Types, Codes(_, _)

Child(path, x) == IF path = "" THEN x ELSE path \o "." \o x

LeafErrs(f, w, path) ==
  LET cs == Codes(f.r, w) IN [i \in DOMAIN cs |-> <<cs[i], f.x, Child(path, f.x)>>]

RECURSIVE Errs(_, _, _, _)
\* opt = FALSE: components that are optional in the schema are not descended into (text fields always are checked)
FieldErrs(f, insts, path, opt) ==
  IF insts = <<>> THEN <<>>
  ELSE IF f.k = "s" THEN FlattenSeq([i \in DOMAIN insts |-> LeafErrs(f, insts[i], path)])
  ELSE IF f.k = "t" /\ (opt \/ f.o = 0)
       THEN FlattenSeq([i \in DOMAIN insts |-> Errs(f.r, insts[i], Child(path, f.x), opt)])
  ELSE <<>>
Errs(t, m, path, opt) ==
  FlattenSeq([i \in DOMAIN Types[t] |-> FieldErrs(Types[t][i], m[i], path, opt)])

\* what a collector holds after validating m under cfg = [ff: stop at the first error, opt: validate optional components]
\* (TRUE = the error is critical)
AllErrs(t, m, path, cfg) == Errs(t, m, path, cfg.opt)

ToSetS(s) == {s[i] : i \in DOMAIN s}
Count(s, e) == LET D == {i \in DOMAIN s : s[i] = e} IN Len(SetToSeq(D))
=============================================================================
