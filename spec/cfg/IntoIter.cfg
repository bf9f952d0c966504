SPECIFICATION Spec
CONSTANTS
  MaxLeaves = 4
  MaxSize = 3
  Owning = TRUE
INVARIANTS Remaining Owned
PROPERTY Yields
CHECK_DEADLOCK FALSE
