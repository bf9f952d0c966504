SPECIFICATION Spec
CONSTANT U = 9
INVARIANT Hint
PROPERTY Yields
CHECK_DEADLOCK FALSE
