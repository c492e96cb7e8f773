INIT Init
NEXT Next
CONSTANTS Opts = {1, 2} Glyphs = {1, 300} MaxSize = 2
INVARIANTS Reads Radix
CHECK_DEADLOCK FALSE
