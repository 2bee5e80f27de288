SPECIFICATION Spec
INVARIANTS NodeDegree Orthogonal Sharp LeftEnd NotRight MomentDecreases
POSTCONDITION Emit
CHECK_DEADLOCK FALSE
