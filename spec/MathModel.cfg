SPECIFICATION Spec
INVARIANTS
  RowsAreSums
  RejectedDoNotFit
  OneLength
CHECK_DEADLOCK FALSE
