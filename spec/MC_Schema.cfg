SPECIFICATION Spec
INVARIANTS MeaningKept ReadsExactly TextSettles NoDefaults SpellsOut
CONSTANTS
  Wide = FALSE
  Rounds = 4
CHECK_DEADLOCK FALSE
