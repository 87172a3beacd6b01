CONSTANTS MaxLen = 3 Threads = 2
SPECIFICATION Spec
INVARIANT Written
CHECK_DEADLOCK FALSE
