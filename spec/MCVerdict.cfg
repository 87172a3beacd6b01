SPECIFICATION Spec
CONSTANT MaxDev = 1
INVARIANTS SameVerdict OwnTypeOnly
CHECK_DEADLOCK FALSE
