INIT TInit
NEXT TNext
CONSTANTS Years = {1}
CHECK_DEADLOCK TRUE
