SPECIFICATION GSpec
CONSTANTS
  N = 1048576
  Sizes <- SizesG
  Window = TRUE
  Depth = 60
INVARIANTS Emit InOrder Whole AckTrue
CHECK_DEADLOCK FALSE
