INIT Init
NEXT Next
INVARIANT SameAsDefinition
INVARIANT AloneCurrent
CHECK_DEADLOCK FALSE
CONSTANTS
  Writes = 2
  Reads = 2
