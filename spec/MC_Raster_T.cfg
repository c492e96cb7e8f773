INIT Init
NEXT Next
CONSTANTS Ctrls = {0, 1, 2, 4, 8, 32, 64, 96, 128, 48, 112, 130, 132, 136, 33, 35, 39, 103, 105, 115, 58, 122, 129, 135}
          Vals = {0, 2} Moves = {0, 253} Alphas = {7, 255} MaxOps = 2
INVARIANTS BoxOK OneAlpha
CHECK_DEADLOCK FALSE
