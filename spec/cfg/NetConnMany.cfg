SPECIFICATION Spec
CONSTANTS
  K = 1
  Lens = {0, 2}
  Bufs = {0, 1, 3}
  Max = 2
  Writing <- TwoDial
  Calls = 1
  Cap = 2
  Readers = 3
INVARIANTS Framed AcceptOnce
PROPERTIES WholeMsg
CHECK_DEADLOCK FALSE
