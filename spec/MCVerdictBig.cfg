SPECIFICATION Spec
CONSTANT MaxDev = 2
INVARIANTS SameVerdict OwnTypeOnly
CHECK_DEADLOCK FALSE
