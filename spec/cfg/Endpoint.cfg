SPECIFICATION Spec
CONSTANTS
  Addrs = {"a", "b", "c"}
  Most = 5
PROPERTIES Others Unknown NoData NoOpen Punch OnlyPunch EndTold
CHECK_DEADLOCK FALSE
