CONSTANTS
  Ns = {1, 2, 3, 5}
  MaxPower = 2
  Qs = {0, 1, 2, 3}
  Subs = {1, 2, 3, 4}
  SetupIds = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS Within StartOfSlab ExactIsExact AllRows Collect
PROPERTIES Equidistant
POSTCONDITION EmitAll
CHECK_DEADLOCK FALSE
