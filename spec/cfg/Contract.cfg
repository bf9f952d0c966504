INIT MCInit
NEXT MCNext
CONSTANTS
  Handles = {1, 2}
  CursorIds = {1}
  IterIds = {1}
  U = 2
  Vals = {2}
  Augs = {"ksum"}
VIEW MCView
INVARIANTS TypeOK LenIsSize RankSelect GroupsPartition IterOK IterSnapshot Weights CursorLaws
PROPERTIES Frame ReadsChangeNothing
CHECK_DEADLOCK FALSE
