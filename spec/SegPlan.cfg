SPECIFICATION Spec
INVARIANTS
  InOrderOnce
  AllCovered
  LongEnough
CHECK_DEADLOCK FALSE
