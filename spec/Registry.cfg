SPECIFICATION Spec
INVARIANTS
  AlwaysSound
  NothingLost
  RejectedLeavesAll
  AcceptedOnce
CHECK_DEADLOCK FALSE
