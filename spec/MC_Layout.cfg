SPECIFICATION Spec
INVARIANT Inv
CONSTANTS MaxN = 2
Extra = {0, 4}
CHECK_DEADLOCK FALSE
