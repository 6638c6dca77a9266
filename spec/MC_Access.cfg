SPECIFICATION Spec
INVARIANT Inv
CONSTANTS Lens = {0, 5, 8, 14, 15}
Offs = {0, 1, 4}
Strides = {0, 1, 3, 4, 8}
Counts = {0, 1, 2, 3}
SparseCounts = {0, 1, 2}
Kinds = {"u1", "u3", "m2"}
CHECK_DEADLOCK FALSE
