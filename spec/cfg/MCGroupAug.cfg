SPECIFICATION Spec
CONSTANTS
  G = 3
  L = 5
INVARIANTS Closed Homomorphism Locate Rank RankUpper LocateUpper GroupSize
CHECK_DEADLOCK FALSE
