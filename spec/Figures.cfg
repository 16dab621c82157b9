SPECIFICATION Spec
INVARIANT Signs
CHECK_DEADLOCK FALSE
