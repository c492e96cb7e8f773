INIT Init
NEXT Next
CONSTANTS Alphabet = {1, 2, 3} MaxIn = 4 MaxOps = 7 USets = {1, 2, 3, 4} GSets = {1, 2, 3}
INVARIANTS Composed Composed1 Always Plain Unmapped
CHECK_DEADLOCK FALSE
