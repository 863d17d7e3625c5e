SPECIFICATION GSpec
CONSTANTS
  PingAfter = 8
  EndAfter = 12
  D = 1
  Cuts = 4
  Talks = 6
  LoseOne = 2
  Depth = 70
  Pace = 40
INVARIANTS Emit
CHECK_DEADLOCK FALSE
