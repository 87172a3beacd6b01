SPECIFICATION Spec
CONSTANTS MaxLen = 1
          Wide = TRUE
INVARIANTS Truthful Undone Inverse Written
PROPERTY OneStep
CHECK_DEADLOCK FALSE
