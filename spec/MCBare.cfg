SPECIFICATION Spec
CONSTANTS MaxDev = 2
          Kind = "bare"
INVARIANTS FramingIrrelevant BareIrrelevant Written
CHECK_DEADLOCK FALSE
