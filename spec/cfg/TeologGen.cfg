SPECIFICATION Spec
CONSTANTS
  Objs = {1, 2}
  Names = {"none", "error", "user", "info", "connect", "debug", "debugv", "debugvv", "debugvvv", "all", "", "verbose", "debugvvvv", "err", "info2", "con nect"}
  Filters <- GenFilters
  Texts = {"zqa", "x zqab", "y", "yy zq w", "Zqa", "zqab zq w", "ZQA", "zq", "qqzqb"}
  Depth = 60
INVARIANTS Emit
CHECK_DEADLOCK FALSE
