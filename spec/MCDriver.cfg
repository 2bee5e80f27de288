CONSTANTS
  Slabs = 3
  Calls = 2
  MaxIterations = 2
SPECIFICATION Spec
INVARIANTS OwnMatrix SetBeforeUse MeasuresTheAnswer RightHandSideKept Collect
POSTCONDITION EmitAll
CHECK_DEADLOCK FALSE
