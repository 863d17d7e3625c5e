SPECIFICATION Spec
CONSTANTS
  Objs = {1, 2}
  Names = {"info", "verbose"}
  Filters <- MCFilters
  Texts = {"x zqab", "y"}
  Depth = 1000
INVARIANTS TypeOK Silent Ordered
PROPERTIES Exact Apart
CHECK_DEADLOCK FALSE
