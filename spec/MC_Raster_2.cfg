INIT Init
NEXT Next
CONSTANTS Ctrls = {2, 8, 128, 113, 132, 129, 122, 97}
          Vals = {1} Moves = {1, 254} Alphas = {9} MaxOps = 4
INVARIANTS BoxOK OneAlpha
CHECK_DEADLOCK FALSE
