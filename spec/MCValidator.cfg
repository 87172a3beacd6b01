SPECIFICATION Spec
CONSTANT MCMax = 1
INVARIANTS ExactWhenDone NotCritical FailFast AtMostOne LenientSubset CriticalHasError
PROPERTIES GrowsOnly Terminates
CHECK_DEADLOCK FALSE
