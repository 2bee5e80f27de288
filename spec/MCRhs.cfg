CONSTANTS
  Ns = {1, 2, 3}
  MaxPower = 6
  SetupIds = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS AllSoFar Collect
POSTCONDITION EmitAll
CHECK_DEADLOCK FALSE
