SPECIFICATION Spec
INVARIANT Whole
PROPERTY RefusedChangesNothing
CHECK_DEADLOCK FALSE
