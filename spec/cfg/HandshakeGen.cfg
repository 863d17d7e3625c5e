SPECIFICATION GSpec
CONSTANTS
  Owner <- Owners
  T = 10
  S = 12
  D = 3
  D4 = 1
  Depth = 40
INVARIANTS Emit
CHECK_DEADLOCK FALSE
