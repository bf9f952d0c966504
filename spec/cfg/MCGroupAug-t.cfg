SPECIFICATION Spec
CONSTANTS
  G = 4
  L = 7
INVARIANTS Closed Homomorphism Locate Rank RankUpper LocateUpper GroupSize
CHECK_DEADLOCK FALSE
