CONSTANTS Reader = "trim" Writer = "refs" Rounds = 3
SPECIFICATION Spec
INVARIANTS RoundInverse Exact XmlStable Idempotent
CHECK_DEADLOCK FALSE
