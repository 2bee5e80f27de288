CONSTANTS
  Prime = 3
  N = 2
SPECIFICATION Spec
INVARIANTS Inverts Causal
CHECK_DEADLOCK FALSE
