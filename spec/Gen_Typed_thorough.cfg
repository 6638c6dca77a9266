INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS Ns = {0, 1, 2, 3, 4, 7}
CHECK_DEADLOCK FALSE
