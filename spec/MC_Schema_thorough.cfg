SPECIFICATION Spec
INVARIANTS MeaningKept ReadsExactly TextSettles NoDefaults SpellsOut
CONSTANTS
  Wide = TRUE
  Rounds = 6
CHECK_DEADLOCK FALSE
