CONSTANTS MaxLen = 4 Threads = 3
SPECIFICATION Spec
INVARIANT Written
CHECK_DEADLOCK FALSE
