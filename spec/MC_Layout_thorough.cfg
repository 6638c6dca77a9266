SPECIFICATION Spec
INVARIANT Inv
CONSTANTS MaxN = 3
Extra = {0, 4, 8, 12}
CHECK_DEADLOCK FALSE
