INIT GInit
NEXT GNext
INVARIANT Emit
CONSTANTS MaxTokens = 4
CHECK_DEADLOCK FALSE
