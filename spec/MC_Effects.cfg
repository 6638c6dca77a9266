SPECIFICATION Spec
INVARIANT Inv
PROPERTY OnlyEditsChange
CHECK_DEADLOCK FALSE
CONSTANTS
  Encoders = {1, 2}
  Datas = {0, 1}
  Uris = {"none", "data", "rel", "bad"}
  MaxBufs = 2
  MaxRuns = 3
