SPECIFICATION Spec
CONSTANTS
  MaxLeaves = 4
  MaxSize = 3
  Owning = FALSE
INVARIANTS Remaining Owned
PROPERTY Yields
CHECK_DEADLOCK FALSE
