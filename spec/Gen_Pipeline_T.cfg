INIT Init
NEXT Next
CONSTANTS Alphabet = {1, 2, 3} MaxIn = 5 MaxOps = 7 USets = {1, 2, 3, 4} GSets = {1, 2, 3}
INVARIANT Emit
CHECK_DEADLOCK FALSE
