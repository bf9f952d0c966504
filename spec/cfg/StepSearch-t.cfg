INIT StepInit
NEXT NoStep
VIEW StepView
CONSTANTS
  N = 4
  ValueAugs = TRUE
  U = 130
  Vals = {1}
  Sizes = {0}
  Cursors = {}
  GroupOfKey <- G2
  RootSizes = {2, 3}
  InnerSizes = {2, 5}
  OddInner = 1
  LeafSizes = {1, 4}
  Odd = 1
INVARIANTS IndexOK GroupOK FindOK
CHECK_DEADLOCK FALSE
