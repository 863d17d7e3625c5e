SPECIFICATION Spec
CONSTANTS
  Keys = {"a", "b"}
  Fresh = 2
  Kinds = {"plain", "stop", "stoprun", "next", "add", "unk", "nil"}
  Depth = 1000
PROPERTIES Exact Once Stopped
CHECK_DEADLOCK FALSE
