--------------------------------- MODULE MCDeep ---------------------------------
(***************************************************************************)
(* Randomly chosen framings with any number of deviations: nested wrappers,*)
(* foreign elements beside header and document, attributes everywhere.     *)
(* Their reading is the message exactly if no part is missing or spoilt.   *)
(***************************************************************************)
EXTENDS GenLib
CONSTANT Count
F == INSTANCE Framings
\* a small linear generator (within TLC's integers), started differently for every k and VERIF_SEED
Seed == atoi(IOEnv.VERIF_SEED) % 1000
Step(x) == (x * 7141 + 54773) % 259200
RECURSIVE Draw(_, _)
Draw(x, n) == IF n = 0 THEN <<>> ELSE <<(x \div 11) % 420>> \o Draw(Step(x), n - 1)
Choose(k) == Draw(Step(Step(((k % 997) * (k % 991) * 13 + k * 7919 + Seed * 5003) % 259200)), F!DeepLen)
VARIABLES k, st
Init == k \in 1..Count /\ st = "new"
Next == st = "new" /\ st' = "done" /\ UNCHANGED k
Spec == Init /\ [][Next]_<<k, st>>
FramingIrrelevant == st = "done" => LET c == Choose(k) IN F!E!Complete(F!E!Reading(F!DeepTokens(c))) = (c[24] % 4 # 0)
Written == st = "done" => Emit(F!DeepTokens(Choose(k)))
=================================================================================
