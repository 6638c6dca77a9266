INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANTS
  Depth = 5
  Docs = {"one", "both", "nested", "twice"}
