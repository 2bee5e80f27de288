SPECIFICATION Spec
INVARIANTS Symmetric BlockTridiagonal OnlySlabsSoFar MeetAtTheEnds LowerTriangular DiffersInFeedback DiagonalIsSlabMatrix MarchingIsPre MarchLoadIsJump AppliedIsAssembled DiagonalSign Collect
POSTCONDITION EmitAll
CHECK_DEADLOCK FALSE
