CONSTANTS
  Steps = 4
  MaxAdapters = 2
SPECIFICATION Spec
INVARIANTS Own Current Collect
PROPERTIES Permanent
POSTCONDITION EmitAll
CHECK_DEADLOCK FALSE
