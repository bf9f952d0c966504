INIT WalkInit
NEXT WalkNext
CONSTANTS
  N = 4
  ValueAugs = FALSE
  U = 48
  Vals = {1, 2, 3}
  Sizes = {0, 21, 40}
  Cursors = {}
  Steps = 150
  Wanted = 0
CHECK_DEADLOCK FALSE
