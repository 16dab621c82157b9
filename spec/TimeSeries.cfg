SPECIFICATION Spec
INVARIANTS
  AggregatedIffInserted
  UserData
  SelectionIsLast
CHECK_DEADLOCK FALSE
