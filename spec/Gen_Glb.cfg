INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS Names = {0, 1, 2, 3}
BLens = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 33}
CHECK_DEADLOCK FALSE
