INIT GInit
NEXT GNext
CONSTANTS Ctrls = {} Vals = {0, 2} Moves = {1, 254} Alphas = {254} MaxOps = 0
CHECK_DEADLOCK FALSE
