CONSTANTS
  MaxSteps = {1, 2, 5}
  Restarts = {1, 2, 10}
SPECIFICATION Spec
INVARIANTS TypeOK Faithful ConvergedOrRaised NeverEarly InTime Monotone Minimal FullCycleSolves Collect
PROPERTY MonotoneP
POSTCONDITION EmitAll
CHECK_DEADLOCK FALSE
