INIT Init
NEXT Next
INVARIANT Emit
CONSTANTS Ops = {"acc", "odd", "group", "attrs", "raw", "image", "badgroup", "badattr", "badimage", "buffer", "text", "glb"}
Depth = 3
Starts = {"nil", "new", "text", "glb", "two", "odd", "many"}
CHECK_DEADLOCK FALSE
