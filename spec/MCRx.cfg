SPECIFICATION Spec
CONSTANTS MaxLen = 3 Deep = FALSE
INVARIANTS SameMeaning TrimOk LengthOk RuleOk
CHECK_DEADLOCK FALSE
