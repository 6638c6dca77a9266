INIT Init
NEXT Next
INVARIANT Emit
CONSTANT Depth = 4
CHECK_DEADLOCK FALSE
