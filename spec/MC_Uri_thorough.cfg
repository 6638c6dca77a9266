SPECIFICATION Spec
INVARIANT Inv
CONSTANTS MaxTokens = 4
CHECK_DEADLOCK FALSE
