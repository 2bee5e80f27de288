CONSTANTS
  Part = "operator"
  Steps = 2
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Function
INVARIANT Held
INVARIANT Clean
INVARIANT Collect
POSTCONDITION Post
