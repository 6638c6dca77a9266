INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS Ns = {0, 1, 3}
CHECK_DEADLOCK FALSE
