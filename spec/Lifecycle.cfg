SPECIFICATION Spec
INVARIANTS
  OnlyOwnInputs
  Repeatable
PROPERTIES
  Untouched
  ResultsStay
CHECK_DEADLOCK FALSE
