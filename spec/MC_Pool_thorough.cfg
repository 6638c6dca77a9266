SPECIFICATION Spec
INVARIANT Inv
CONSTANTS Readers = {1, 2}
Blocks = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
MaxReads = 4
CHECK_DEADLOCK FALSE
