CONSTANTS
  Qs = {0, 1, 2, 3}
  Ns = {1, 2, 3, 5}
SPECIFICATION Spec
INVARIANTS InOrder Complete OneToOne EndsMeet TouchIsMutual CarriedIsReached Collect
POSTCONDITION EmitAll
CHECK_DEADLOCK FALSE
