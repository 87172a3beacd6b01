SPECIFICATION Spec
CONSTANTS MaxDev = 3
          Kind = "bare"
INVARIANTS FramingIrrelevant BareIrrelevant Written
CHECK_DEADLOCK FALSE
