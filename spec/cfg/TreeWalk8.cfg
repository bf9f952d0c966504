INIT WalkInit
NEXT WalkNext
CONSTANTS
  N = 8
  ValueAugs = FALSE
  U = 150
  Vals = {1, 2, 3}
  Sizes = {0, 72, 81, 90, 140}
  Cursors = {}
  Steps = 300
  Wanted = 0
CHECK_DEADLOCK FALSE
