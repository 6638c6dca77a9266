SPECIFICATION Spec
INVARIANT Inv
CONSTANTS JLens = {1, 2, 4, 5}
BLens = {1, 3, 4}
Slack = 2
JExtra = {0, 4}
BExtra = {0}
Trail <- TrailSet
Portions = {1, 3, 20}
CHECK_DEADLOCK FALSE
