INIT WalkInit
NEXT WalkNext
CONSTANTS
  N = 8
  ValueAugs = FALSE
  U = 460
  Vals = {1, 2, 3}
  Sizes = {0, 230, 400, 450}
  Cursors = {}
  Steps = 500
  Wanted = 0
CHECK_DEADLOCK FALSE
