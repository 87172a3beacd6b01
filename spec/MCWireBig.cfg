CONSTANT Texts = {1, 2}
SPECIFICATION Spec
INVARIANTS ParseInverse RoundTrip OrderFree Truncations
CHECK_DEADLOCK FALSE
