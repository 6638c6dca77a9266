SPECIFICATION Spec
INVARIANT Inv
INVARIANT OneAtATime
CONSTANTS MaxRes = 3
CHECK_DEADLOCK FALSE
