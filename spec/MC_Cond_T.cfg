INIT Init
NEXT Next
CONSTANTS NS = 2 MaxVal = 1 MaxLeaves = 3 MaxGroups = 2 Consts = {1} MaxArity = 3
INVARIANTS RoundTrip Agree Quick PrefixFree
CHECK_DEADLOCK FALSE
