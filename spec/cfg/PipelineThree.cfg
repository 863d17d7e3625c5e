SPECIFICATION Spec
CONSTANTS
  Cap = 1
  NIn = 2
  NApp = 1
  Writes = 2
  NCb = 2
  MayClose = FALSE
INVARIANTS TypeOK InOrder ToldOnce AtRest
CHECK_DEADLOCK TRUE
