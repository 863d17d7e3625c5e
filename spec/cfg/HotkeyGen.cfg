SPECIFICATION GenSpec
CONSTANTS
  Keys = {"61", "62", "41", "1b5b44", "d0b6", "e282ac", "03", "7f"}
  Fresh = 200
  Kinds = {"plain", "stop", "stoprun", "next", "add", "unk", "nil"}
  Depth = 60
INVARIANTS Emit
CHECK_DEADLOCK FALSE
