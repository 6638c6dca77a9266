INIT GInit
NEXT GNext
INVARIANT Emit
CONSTANTS MaxTokens = 3
CHECK_DEADLOCK FALSE
