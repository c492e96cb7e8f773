INIT Init
NEXT Next
CONSTANTS Alphabet = {1, 2, 3} MaxRules = 1 MaxIn = 5 MaxOps = 0 CatalogSize = 12 Lifecycle = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
