SPECIFICATION Spec
CONSTANTS
  M = 3
  Tmo <- MCTmo
INVARIANTS AtMostOnce SuccessTrue RefusedNone
PROPERTIES ExactlyOnce
CHECK_DEADLOCK FALSE
