INIT Init
NEXT Next
CONSTANTS Years = {1, 4, 100, 400, 1900, 1996, 1999, 2000, 2023, 2024, 2100, 2400, 65500, 65532, 65535}
INVARIANTS Visited YearLength IntervalsOK
CHECK_DEADLOCK TRUE
