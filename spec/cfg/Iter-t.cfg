SPECIFICATION Spec
CONSTANTS
  MaxLeaves = 6
  MaxSize = 3
  Owning = FALSE
INVARIANTS Remaining Owned
PROPERTY Yields
CHECK_DEADLOCK FALSE
