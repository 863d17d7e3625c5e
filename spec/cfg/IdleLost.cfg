SPECIFICATION Spec
CONSTANTS
  PingAfter = 8
  EndAfter = 12
  D = 1
  Cuts = 2
  Talks = 0
  LoseOne = 1
INVARIANTS TypeOK Stays NotLate
PROPERTIES NotEarly
CHECK_DEADLOCK FALSE
