SPECIFICATION Spec
CONSTANTS
  Owner <- OwnersAB
  T = 4
  S = 5
  D = 1
  D4 = 1
INVARIANTS TypeOK ToldOnce NothingLeft Consistent
PROPERTIES Agreed NoOrphan Undisturbed
CHECK_DEADLOCK FALSE
