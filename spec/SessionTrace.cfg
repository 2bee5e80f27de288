
SPECIFICATION Spec
INVARIANTS Note
POSTCONDITION EmitVerdict
CHECK_DEADLOCK FALSE
