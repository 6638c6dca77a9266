INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS Want = "bad"
Ns = {0, 1, 3}
Pairs = TRUE
Bases = {"u3", "sparse"}
CHECK_DEADLOCK FALSE
