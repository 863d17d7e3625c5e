SPECIFICATION CSpec
CONSTANTS
  N = 64
  Sizes <- CSizes
  Window = TRUE
  Most = 5
INVARIANTS SentTold AckTold RecvTold DropTold QueueTold
CHECK_DEADLOCK FALSE
