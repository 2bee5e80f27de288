CONSTANTS
  Sizes = {2, 3}
SPECIFICATION Spec
INVARIANTS Summed Ends NotStuck Collect
POSTCONDITION Post
CHECK_DEADLOCK FALSE
