SPECIFICATION Spec
INVARIANT RowsMatchStamps
INVARIANT OnlyNegligibleDropped
CHECK_DEADLOCK FALSE
