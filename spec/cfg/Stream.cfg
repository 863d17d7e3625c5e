SPECIFICATION Spec
CONSTANTS N = 8
 Sizes <- SizesA
 Window = TRUE
INVARIANTS TypeOK InOrder Whole WindowOK AckTrue
CHECK_DEADLOCK FALSE
VIEW View
