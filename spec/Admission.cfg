SPECIFICATION Spec
INVARIANT Sane
PROPERTY Lasting
CHECK_DEADLOCK FALSE
