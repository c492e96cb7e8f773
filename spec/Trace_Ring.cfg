INIT TInit
NEXT TNext
CONSTANTS Elems = {}
          MaxCap = 0
INVARIANT TypeOK
CHECK_DEADLOCK TRUE
