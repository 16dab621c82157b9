SPECIFICATION Spec
INVARIANT Ends
CHECK_DEADLOCK FALSE
