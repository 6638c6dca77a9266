SPECIFICATION Spec
INVARIANT Inv
CONSTANTS Types = {"u1", "s3", "m2"}
Ns = {2}
Targets = {"array"}
MaxOps = 3
CHECK_DEADLOCK FALSE
