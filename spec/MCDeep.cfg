SPECIFICATION Spec
CONSTANT Count = 3000
INVARIANTS FramingIrrelevant Written
CHECK_DEADLOCK FALSE
