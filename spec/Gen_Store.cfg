INIT Init
NEXT GNext
INVARIANT Emit
CONSTANTS MaxBufs = 3
Kinds = {"none", "embedded", "file", "url"}
CHECK_DEADLOCK FALSE
