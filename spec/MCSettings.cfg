CONSTANTS
  Levels = {0, 1, 2, 3, 4, 5}
  Orders = {1, 2, 3}
  MaxPoints = 8
SPECIFICATION Spec
INVARIANTS NoneCut TwoCut SameVolume Proper OneSided Together Collect
POSTCONDITION EmitAll
CHECK_DEADLOCK FALSE
