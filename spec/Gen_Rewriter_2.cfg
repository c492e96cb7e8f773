INIT Init
NEXT Next
CONSTANTS Alphabet = {1, 2} MaxRules = 2 MaxIn = 6 MaxOps = 0 CatalogSize = 12 Lifecycle = FALSE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
