SPECIFICATION Spec
INVARIANT Inv
CONSTANTS Kinds = {"byte", "ubyte", "short", "ushort"}
Step = 1
CHECK_DEADLOCK FALSE
