SPECIFICATION Spec
CONSTANTS N = 8
 Sizes <- SizesA
 Window = FALSE
INVARIANTS InOrder
CHECK_DEADLOCK FALSE
VIEW View
