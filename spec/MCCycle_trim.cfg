CONSTANTS Reader = "trim" Writer = "plain" Rounds = 3
SPECIFICATION Spec
INVARIANTS RoundInverse Exact XmlStable Idempotent
CHECK_DEADLOCK FALSE
