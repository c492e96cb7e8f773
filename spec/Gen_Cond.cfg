INIT Init
NEXT Next
CONSTANTS NS = 2 MaxVal = 2 MaxLeaves = 2 MaxGroups = 1 Consts = {0, 1, 31} MaxArity = 2
INVARIANTS Complete
CHECK_DEADLOCK FALSE
