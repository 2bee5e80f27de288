CONSTANTS
  Prime = 3
  Calls = 3
SPECIFICATION Spec
INVARIANTS Answer Identity Multiplicative ExactWithoutFeedback InputKept Collect
POSTCONDITION EmitAll
CHECK_DEADLOCK FALSE
