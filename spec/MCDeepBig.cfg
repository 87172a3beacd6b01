SPECIFICATION Spec
CONSTANT Count = 40000
INVARIANTS FramingIrrelevant Written
CHECK_DEADLOCK FALSE
