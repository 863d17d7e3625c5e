SPECIFICATION LiveSpec
CONSTANTS N = 4
 Sizes <- SizesL
 Window = TRUE
PROPERTIES AllDelivered
VIEW View
CHECK_DEADLOCK FALSE
