INIT Init
NEXT Next
INVARIANT Inv
CONSTANTS MaxLen = 4
Values = {0, 1, 85, 170, 255}
CHECK_DEADLOCK FALSE
