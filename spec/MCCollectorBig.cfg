CONSTANTS MaxOps = 6
          NErr = 4
SPECIFICATION Spec
INVARIANTS Agrees Written
PROPERTY Grows
CHECK_DEADLOCK FALSE
