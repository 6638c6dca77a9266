INIT Init
NEXT Next
INVARIANT Inv
CONSTANTS MaxLen = 5
Values = {0, 3, 85, 128, 170, 255}
CHECK_DEADLOCK FALSE
