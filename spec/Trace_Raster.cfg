INIT TInit
NEXT TNext
CONSTANTS Ctrls = {} Vals = {} Moves = {} Alphas = {} MaxOps = 0
CHECK_DEADLOCK TRUE
