SPECIFICATION Spec
CONSTANTS
  LO = 10
  HI = 200
  ONEPS = 100
CHECK_DEADLOCK FALSE
