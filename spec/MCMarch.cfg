CONSTANTS
  Ns = {1, 2, 3}
  Calls = 2
SPECIFICATION Spec
INVARIANTS SolverGetsItsSlab SolutionComplete Causal Clean Collect
POSTCONDITION EmitAll
CHECK_DEADLOCK FALSE
