INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 6
  Docs = {"one", "both", "nested", "twice"}
