SPECIFICATION Spec
INVARIANT Inv
CONSTANTS Kinds = {"byte", "ubyte", "short", "ushort"}
Step = 7
CHECK_DEADLOCK FALSE
