SPECIFICATION Spec
CONSTANTS
  K = 2
  Lens = {2}
  Bufs = {1, 3}
  Max = 1
  Writing <- TwoDial
  Calls = 3
  Cap = 1
  Readers = 1
INVARIANTS Framed AcceptOnce
PROPERTIES WholeMsg
CHECK_DEADLOCK FALSE
