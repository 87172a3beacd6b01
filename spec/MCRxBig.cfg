SPECIFICATION Spec
CONSTANTS MaxLen = 4 Deep = TRUE
INVARIANTS SameMeaning TrimOk LengthOk RuleOk
CHECK_DEADLOCK FALSE
