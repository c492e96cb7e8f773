INIT Init
NEXT Next
CONSTANTS Cps = {1, 2, 3, 4, 5} Missing = {5} Size = 3 MaxVal = 1 MaxOps = 8
INVARIANTS Transparent Bounded Lru
PROPERTY Keeps
CHECK_DEADLOCK FALSE
