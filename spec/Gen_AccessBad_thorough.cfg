INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS Want = "bad"
Ns = {0, 1, 3}
Pairs = TRUE
Bases = {"u1", "u3", "f3", "m2", "sparse", "sparsefloat", "noview"}
CHECK_DEADLOCK FALSE
