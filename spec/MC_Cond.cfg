INIT Init
NEXT Next
CONSTANTS NS = 2 MaxVal = 2 MaxLeaves = 2 MaxGroups = 2 Consts = {0, 1, 2} MaxArity = 2
INVARIANTS RoundTrip Agree Quick PrefixFree
CHECK_DEADLOCK FALSE
