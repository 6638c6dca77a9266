INIT Init
NEXT Next
INVARIANT Emit
CONSTANT Depth = 3
CHECK_DEADLOCK FALSE
