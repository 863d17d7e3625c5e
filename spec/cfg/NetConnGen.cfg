SPECIFICATION GSpec
CONSTANTS
  K = 3
  Lens = {0, 1, 3}
  Bufs = {0, 1, 2, 5}
  Max = 6
  Writing <- BothWays
  Calls = 5
  Cap = 100
  Readers = 1
  Depth = 40
INVARIANTS Emit
CHECK_DEADLOCK FALSE
