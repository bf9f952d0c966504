INIT WalkInit
NEXT WalkNext
CONSTANTS
  N = 4
  ValueAugs = FALSE
  U = 130
  Vals = {1, 2, 3}
  Sizes = {0, 60, 110, 130}
  Cursors = {}
  Steps = 300
  Wanted = 0
CHECK_DEADLOCK FALSE
