CONSTANTS
  Orders = {1, 2, 3}
  SomeN = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS OnlyItself EveryBlockOnce RowSums RestrictedProlongationIsIdentity Reproduces Collect
POSTCONDITION EmitAll
CHECK_DEADLOCK FALSE
