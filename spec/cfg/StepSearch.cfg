INIT StepInit
NEXT NoStep
VIEW StepView
CONSTANTS
  N = 4
  ValueAugs = TRUE
  U = 90
  Vals = {1}
  Sizes = {0}
  Cursors = {}
  GroupOfKey <- G15
  RootSizes = {2}
  InnerSizes = {2, 5}
  OddInner = 1
  LeafSizes = {1, 4}
  Odd = 1
INVARIANTS IndexOK GroupOK FindOK
CHECK_DEADLOCK FALSE
