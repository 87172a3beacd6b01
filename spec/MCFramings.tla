------------------------------- MODULE MCFramings -------------------------------
(***************************************************************************)
(* Every framing with at most MaxDev deviations is read as the framed      *)
(* message, and is written out for replay.                                 *)
(***************************************************************************)
EXTENDS GenLib, FiniteSets
CONSTANTS MaxDev, Kind
F == INSTANCE Framings

VARIABLES sel, ch, st
vars == <<sel, ch, st>>
Used == IF Kind = "bare" THEN {F!Ix(n) : n \in {"decl", "ws0", "dattr", "ws3", "rattr", "ws4", "ws6", "part"}} ELSE F!D
Init == sel \in UNION {{S \in SUBSET Used : Cardinality(S) = k} : k \in 0..MaxDev} /\ ch = <<>> /\ st = "sel"
Next == st = "sel" /\ st' = "done" /\ ch' \in F!Varied(sel) /\ UNCHANGED sel
Spec == Init /\ [][Next]_vars

Toks == IF Kind = "bare" THEN F!BareTokens(F!Choice(ch)) ELSE F!Tokens(F!Choice(ch))
Part == F!Choice(ch)[F!Ix("part")]
Read == F!E!Reading(Toks)
Wattr == F!AttrLists[F!Choice(ch)[F!Ix("wattr")]]
Hattr == F!AttrLists[F!Choice(ch)[F!Ix("hattr")]]
\* what is read does not depend on the framing, except for the namespaces, which are the wrapper's and then the header's
FramingIrrelevant == st = "done" /\ Kind = "env" =>
  /\ F!E!Complete(Read) = (Part = 1)
  /\ F!E!Complete(Read) => Read.ns = LET w == IF F!Choice(ch)[F!Ix("wrap")] = 2 THEN <<0, 0>> ELSE F!E!Declare(<<0, 0>>, Wattr) IN F!E!Declare(w, Hattr)
BareIrrelevant == st = "done" /\ Kind = "bare" => F!E!Bare(Read) = (Part \notin {4, 5, 6, 7, 9}) /\ F!E!Valid(Toks) = F!E!Bare(Read)
Written == st = "done" => Emit(Toks)
=================================================================================
