INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Steps = {"text", "binary", "binaryReused", "save", "textFails", "binaryFails", "fileFails", "edit"}
  Depth = 4
  Kinds = {"plain", "dense", "camera", "extras", "baduri"}
