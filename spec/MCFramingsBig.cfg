SPECIFICATION Spec
CONSTANTS MaxDev = 3
          Kind = "env"
INVARIANTS FramingIrrelevant BareIrrelevant Written
CHECK_DEADLOCK FALSE
