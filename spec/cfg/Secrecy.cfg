SPECIFICATION Spec
CONSTANTS
  S = {1, 2}
  Msgs = {"m", "n"}
  Nums = {0, 1}
  Most = 3
  Known = {}
INVARIANTS NoKey NoContent Differ NotAltered
CHECK_DEADLOCK FALSE
