INIT Init
NEXT Next
CONSTANTS Alphabet = {1, 2} MaxRules = 2 MaxIn = 5 MaxOps = 0 CatalogSize = 12 Lifecycle = FALSE
INVARIANTS Refines AtBoundary Prefix Kept Bounded Irrelevant Simpler
CHECK_DEADLOCK FALSE
