SPECIFICATION Spec
INVARIANT Latest
PROPERTIES
  LoadedStay
  OnlySavingWrites
CHECK_DEADLOCK FALSE
