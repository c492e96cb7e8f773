CONSTANTS
  N = 6
  Len_ = 4
  Sizes = {1, 2, 3, 4, 5, 7}
INIT Init
NEXT Next
INVARIANTS Same SameHits
CHECK_DEADLOCK FALSE
