INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS Want = "good"
Ns = {0, 1, 3}
Pairs = FALSE
Bases = {"u1"}
CHECK_DEADLOCK FALSE
