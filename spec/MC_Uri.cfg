SPECIFICATION Spec
INVARIANT Inv
CONSTANTS MaxTokens = 3
CHECK_DEADLOCK FALSE
