INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Steps = {"text", "binary", "textIndent", "binaryReused", "textReused", "save", "textFails", "binaryFails", "fileFails", "concurrent", "edit"}
  Depth = 3
  Kinds = {"plain", "dense", "camera", "extras", "baduri"}
