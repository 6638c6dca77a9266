INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS Want = "good"
Ns = {0, 1, 2, 3, 5, 8}
Pairs = FALSE
Bases = {"u1"}
CHECK_DEADLOCK FALSE
