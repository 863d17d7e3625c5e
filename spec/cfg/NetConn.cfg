SPECIFICATION Spec
CONSTANTS
  K = 1
  Lens = {0, 2}
  Bufs = {0, 1, 3}
  Max = 2
  Writing <- BothWays
  Calls = 1
  Cap = 2
  Readers = 1
INVARIANTS Framed AcceptOnce
PROPERTIES WholeMsg
CHECK_DEADLOCK FALSE
