INIT Init
NEXT Next
CONSTANTS Alphabet = {1, 2} MaxRules = 2 MaxIn = 5 MaxOps = 11 CatalogSize = 12 Lifecycle = TRUE
INVARIANTS Refines AtBoundary Prefix Kept Irrelevant Simpler
CHECK_DEADLOCK FALSE
