CONSTANTS
  Ns = {1, 2, 3, 4}
  MaxPower = 3
  Qs = {0, 1, 2, 3}
  Defects = {"none", "node", "rough"}
  SetupIds = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS LiftKeepsEnd LiftKeepsMiddle NoError SeenWhere Collect
PROPERTIES Continuous
POSTCONDITION EmitAll
CHECK_DEADLOCK FALSE
