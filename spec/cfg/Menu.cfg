SPECIFICATION Spec
CONSTANTS
  Keys = {"h", "L", "u", "U", "l", "^L", "f", "^C", "q", "z"}
  Typed = {"error", "debugv", "x"}
  Filters <- MCFilters
  Depth = 1000
INVARIANTS TypeOK Goes Kept
PROPERTIES Stopped Quit
CHECK_DEADLOCK FALSE
