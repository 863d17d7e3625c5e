SPECIFICATION GenSpec
CONSTANTS
  Keys = {"h", "?", "L", "u", "U", "l", "^L", "f", "^C", "q", "z", "enter", "left"}
  Typed = {"error", "debugv", "info", "debugvvv", "none", "what", "", "3", "connect"}
  Filters <- GenFilters
  Depth = 40
INVARIANTS Emit
CHECK_DEADLOCK FALSE
