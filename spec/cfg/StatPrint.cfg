SPECIFICATION Spec
CONSTANTS
  Gens = 4
  Owned = TRUE
INVARIANTS Running Quiet Nothing One
PROPERTIES Shows Ends
CHECK_DEADLOCK FALSE
