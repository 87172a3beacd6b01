-------------------------------- MODULE MCVerdict --------------------------------
(***************************************************************************)
(* The three procedures agree on every framing with at most MaxDev         *)
(* deviations, of a sound or unsound message, from every kind of source.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT MaxDev
F == INSTANCE Framings
V == INSTANCE Verdict
VARIABLES sel, ch, st, src, sound, kind
vars == <<sel, ch, st, src, sound, kind>>
Used(k) == IF k = "bare" THEN {F!Ix(n) : n \in {"decl", "ws0", "dattr", "ws3", "rattr", "ws4", "ws6", "part"}} ELSE F!D
Init == /\ kind \in {"env", "bare"} /\ src \in V!Contents /\ sound \in BOOLEAN /\ st = "sel" /\ ch = <<>>
        /\ sel \in UNION {{S \in SUBSET Used(kind) : Cardinality(S) = k} : k \in 0..MaxDev}
Next == st = "sel" /\ st' = "done" /\ ch' \in F!Varied(sel) /\ UNCHANGED <<sel, src, sound, kind>>
Spec == Init /\ [][Next]_vars
Toks == IF kind = "bare" THEN F!BareTokens(F!Choice(ch)) ELSE F!Tokens(F!Choice(ch))
SameVerdict == st = "done" =>
  LET v == V!ValidateStep(src, Toks, sound) p == V!ParseStep(src, Toks, sound)
      c == IF V!HasContent(src) THEN V!EnvelopeCheck(Toks, sound, "own") ELSE "-"
  IN V!Agree(v[1], v[2], p, c)
\* a bare document is of one type only
OwnTypeOnly == st = "done" /\ ~V!E!Envelope(Toks) => V!EnvelopeCheck(Toks, sound, "foreign") = "error"
==================================================================================
