INIT StepInit
NEXT OneStep
VIEW StepView
CONSTANTS
  N = 4
  ValueAugs = FALSE
  U = 90
  Vals = {1}
  Sizes = {0}
  Cursors = {}
  GroupOfKey <- G2
  RootSizes = {2}
  InnerSizes = {2, 5}
  OddInner = 2
  LeafSizes = {1, 4}
  Odd = 2
INVARIANTS Balanced Chain Augs Length
PROPERTY StepOKs
CHECK_DEADLOCK FALSE
