SPECIFICATION Spec
INVARIANTS Nodal PartitionOfUnity DerivSumsToZero MirrorSymmetric MassSymmetric DDMSymmetric ByParts TotalMassOne DiagonalPositive Inside
POSTCONDITION Emit
CHECK_DEADLOCK FALSE
