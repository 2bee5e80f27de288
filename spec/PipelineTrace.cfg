CONSTANTS
  Residual = 6
  Difference = 5
  Gain = 80
SPECIFICATION Spec
INVARIANTS Note
POSTCONDITION EmitVerdict
CHECK_DEADLOCK FALSE
