CONSTANTS
  MaxCalls = 2
  Size = 2
SPECIFICATION Spec
INVARIANTS WithoutFault WithFault Collect
POSTCONDITION EmitAll
CHECK_DEADLOCK FALSE
