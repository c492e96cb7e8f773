INIT Init
NEXT Next
CONSTANTS Keys = {0, 1, 2} MaxVal = 2 Decisions = {1, 2, 3}
INVARIANT CachedIsFresh
PROPERTY OneWrite
CHECK_DEADLOCK FALSE
