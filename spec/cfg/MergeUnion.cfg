SPECIFICATION Spec
CONSTANT U = 6
INVARIANT Hint
PROPERTY Yields
CHECK_DEADLOCK FALSE
