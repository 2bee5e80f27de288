CONSTANTS
  Prime = 3
SPECIFICATION Spec
INVARIANTS SameSolution EndsEarly Collect
POSTCONDITION EmitAll
CHECK_DEADLOCK FALSE
