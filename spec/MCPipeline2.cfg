SPECIFICATION Spec
CONSTANTS MaxLen = 2
          Wide = FALSE
INVARIANTS Truthful Undone Inverse Written
PROPERTY OneStep
CHECK_DEADLOCK FALSE
