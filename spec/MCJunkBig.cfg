SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANT Written
CHECK_DEADLOCK FALSE
