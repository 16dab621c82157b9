SPECIFICATION Spec
INVARIANTS Even Within
CHECK_DEADLOCK FALSE
