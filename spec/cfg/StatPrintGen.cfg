SPECIFICATION GSpec
CONSTANTS
  Gens = 9
  Owned = TRUE
  Depth = 26
INVARIANTS Emit
CHECK_DEADLOCK FALSE
