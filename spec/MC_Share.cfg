CONSTANTS Users = {1, 2}
Queries = {1}
Vals = {1, 2}
Len0 = 3
SPECIFICATION Spec
INVARIANT AsIfAlone
PROPERTY Kept
CHECK_DEADLOCK TRUE
