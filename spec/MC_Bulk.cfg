CONSTANTS
  N = 4
  Len_ = 3
  Sizes = {1, 2, 3, 4, 5}
INIT Init
NEXT Next
INVARIANTS Same SameHits
CHECK_DEADLOCK FALSE
