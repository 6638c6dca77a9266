SPECIFICATION Spec
INVARIANT Inv
CONSTANTS Types = {"u1", "s3", "m3", "f2"}
Ns = {1, 2}
Targets = {"none", "array"}
MaxOps = 3
CHECK_DEADLOCK FALSE
