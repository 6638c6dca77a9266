SPECIFICATION Spec
INVARIANT Inv
CONSTANTS Policies = {"own"}
Procs = {1, 2}
Slots = {1, 2}
Cells = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
MaxOps = 3
CHECK_DEADLOCK FALSE
