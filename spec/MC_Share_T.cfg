CONSTANTS Users = {1, 2}
Queries = {1, 2}
Vals = {1, 2}
Len0 = 4
SPECIFICATION Spec
INVARIANT AsIfAlone
PROPERTY Kept
CHECK_DEADLOCK TRUE
