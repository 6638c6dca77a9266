INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS Ns = {0, 1, 2, 3}
Over = {0, 4, 8}
BufOver = {0, 1, 9, 64}
Caps = {0, 5}
CHECK_DEADLOCK FALSE
