INIT Init
NEXT Next
CONSTANTS Cps = {1, 2, 3, 4} Missing = {4} Size = 2 MaxVal = 1 MaxOps = 7
INVARIANTS Transparent Bounded Lru
PROPERTY Keeps
CHECK_DEADLOCK FALSE
