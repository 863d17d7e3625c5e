SPECIFICATION Spec
CONSTANTS
  Gens = 4
  Owned = FALSE
INVARIANTS Running Quiet Nothing One
CHECK_DEADLOCK FALSE
