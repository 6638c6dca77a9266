SPECIFICATION Spec
INVARIANT Inv
CONSTANTS MaxBufs = 3
Kinds = {"none", "embedded", "file", "url"}
CHECK_DEADLOCK FALSE
