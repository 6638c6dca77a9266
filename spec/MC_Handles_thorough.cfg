SPECIFICATION Spec
INVARIANT Inv
INVARIANT OneAtATime
CONSTANTS MaxRes = 4
CHECK_DEADLOCK FALSE
