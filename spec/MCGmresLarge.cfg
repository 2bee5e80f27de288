CONSTANTS
  Ns = {2, 5, 8, 31, 99, 100, 101}
  Spirals = {2, 6, 16}
  Steps = {0, 3, 40, 150, 640}
  Rates = {1, 7, 100}
SPECIFICATION Spec
INVARIANTS InTime ReturnedMeans StagnationRaises Collect
POSTCONDITION EmitAll
CHECK_DEADLOCK FALSE
