SPECIFICATION Spec
CONSTANTS
  Cap = 1
  NIn = 2
  NApp = 1
  Writes = 1
  NCb = 1
  MayClose = TRUE
INVARIANTS TypeOK InOrder ToldOnce AtRest
CHECK_DEADLOCK TRUE
