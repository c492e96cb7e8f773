INIT GInit
NEXT GNext
CONSTANTS Ctrls = {} Vals = {0, 1, 4} Moves = {1, 127, 128, 254} Alphas = {3, 254} MaxOps = 0
CHECK_DEADLOCK FALSE
