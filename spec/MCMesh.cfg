CONSTANTS
  Depth = 2
SPECIFICATION Spec
INVARIANTS Valid IsRefinement FitsWhatItShould FaultsRejected NotRefined Collect
POSTCONDITION EmitAll
CHECK_DEADLOCK FALSE
