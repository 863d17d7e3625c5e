SPECIFICATION FairSpec
CONSTANTS
  K = 2
  Lens = {1}
  Bufs = {1}
  Max = 1
  Writing <- TwoDial
  Calls = 2
  Cap = 1
  Readers = 1
PROPERTIES Unblocked AcceptUnblocked NoDelay
CHECK_DEADLOCK FALSE
