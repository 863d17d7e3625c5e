SPECIFICATION Spec
CONSTANTS
  OneLoop = TRUE
  Runs = 5
  Loops = 5
INVARIANTS NoneLate AtMostOne
PROPERTIES Serves
CHECK_DEADLOCK FALSE
