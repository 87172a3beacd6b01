SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANT Written
CHECK_DEADLOCK FALSE
