SPECIFICATION Spec
CONSTANTS
  LO = 10
  HI = 200
  ONEPS = 100
INVARIANTS
  BusesBalance
  StorageConserves
  StorageWithinLimits
  RunsRespectLimits
  StartsCounted
  Exclusive
  EffectsAccounted
  EffectsWithinLimits
  SizesLegal
CHECK_DEADLOCK FALSE
