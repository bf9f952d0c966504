INIT Init
NEXT NextModify
VIEW StructView
CONSTANTS
  N = 4
  ValueAugs = FALSE
  U = 9
  Vals = {1}
  Sizes = {0, 9}
  Cursors = {}
INVARIANTS Chain AnyHint AnyCursor
CHECK_DEADLOCK FALSE
