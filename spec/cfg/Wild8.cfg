INIT AnyInit
NEXT WildNext
VIEW WildView
CONSTANTS
  N = 8
  ValueAugs = TRUE
  U = 90
  Vals = {1}
  Sizes = {0}
  Cursors = {}
  GroupOfKey <- G2
  RootSizes = {}
  InnerSizes = {2, 5}
  OddInner = 1
  LeafSizes = {2, 8}
  Odd = 1
  Rolls = 9
  LocateChild <- DLocateChild
  LocateSlot <- DLocateSlot
  HasSlot <- DHasSlot
INVARIANTS Shaped Chained Counted Counts
PROPERTY Refines
CHECK_DEADLOCK FALSE
