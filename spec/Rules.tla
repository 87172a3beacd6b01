-------------------------------- MODULE Rules --------------------------------
(***************************************************************************)
(* Leaf rules: what a single text value must satisfy.                      *)
(*   length facets count characters of the value as it stands;             *)
(*   a pattern facet is matched by the whole value after trimming.         *)
(* Codes: 1001 too short, 1002 too long, 1005 pattern, 1003 required.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, Rx

TooShort == 1001
TooLong  == 1002
Required == 1003
Mismatch == 1005

Shortfall(v, min) == Len(v) < min
Excess(v, max)    == Len(v) > max

\* cls = [min, max, pat] with 0 for "no such facet"; Pats = the pattern table
LengthCodes(cls, v) ==
     (IF cls.max > 0 /\ Shortfall(v, cls.min) THEN <<TooShort>> ELSE <<>>)
  \o (IF cls.max > 0 /\ Excess(v, cls.max) THEN <<TooLong>> ELSE <<>>)
PatternCodes(Pats, cls, v) ==
  IF cls.pat > 0 /\ ~FullMatch(Pats[cls.pat].ast, Trim(v)) THEN <<Mismatch>> ELSE <<>>

LeafCodes(Pats, cls, v) == LengthCodes(cls, v) \o PatternCodes(Pats, cls, v)
=============================================================================
