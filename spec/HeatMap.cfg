SPECIFICATION Spec
INVARIANTS OnePlace AllShown
CHECK_DEADLOCK FALSE
