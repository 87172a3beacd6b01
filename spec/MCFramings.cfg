SPECIFICATION Spec
CONSTANTS MaxDev = 2
          Kind = "env"
INVARIANTS FramingIrrelevant BareIrrelevant Written
CHECK_DEADLOCK FALSE
