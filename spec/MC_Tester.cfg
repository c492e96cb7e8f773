INIT Init
NEXT Next
CONSTANTS Alphabet = {1, 2} MaxRules = 2 MaxIn = 4 MaxOps = 9 CatalogSize = 6 Lifecycle = TRUE
INVARIANTS Refines AtBoundary Prefix Kept Irrelevant Simpler
CHECK_DEADLOCK FALSE
