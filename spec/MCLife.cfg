CONSTANTS
  Jumps = FALSE
SPECIFICATION Spec
INVARIANTS HandsOutWhatIsKept KeepsOneKind HasOnlyBuildable AllPrepared Collect
PROPERTIES Monotone
POSTCONDITION EmitAll
CHECK_DEADLOCK FALSE
