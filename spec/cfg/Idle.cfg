SPECIFICATION Spec
CONSTANTS
  PingAfter = 8
  EndAfter = 12
  D = 2
  Cuts = 2
  Talks = 1
  LoseOne = 0
INVARIANTS TypeOK Stays NotLate
PROPERTIES NotEarly
CHECK_DEADLOCK FALSE
