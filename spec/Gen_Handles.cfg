INIT Init
NEXT Next
INVARIANT Emit
CONSTANT MaxRes = 2
CHECK_DEADLOCK FALSE
