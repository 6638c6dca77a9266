SPECIFICATION Spec
INVARIANT Inv
CONSTANTS JLens = {1, 2, 3, 4, 5, 8}
BLens = {1, 2, 3, 4, 5}
Slack = 2
JExtra = {0, 4, 8}
BExtra = {0}
Trail <- TrailSet
Portions = {1, 2, 3, 5, 20}
CHECK_DEADLOCK FALSE
