INIT Init
NEXT Next
INVARIANT Emit
CONSTANT MaxRes = 3
CHECK_DEADLOCK FALSE
