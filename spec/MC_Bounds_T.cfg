SPECIFICATION Spec
CONSTANTS MaxN = 3 MaxAsks = 2
INVARIANTS Exact Same
PROPERTY NoHarm
CHECK_DEADLOCK FALSE
