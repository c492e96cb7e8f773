SPECIFICATION Spec
CONSTANTS Alphabet = {1, 2} MaxName = 2 MaxTable = 5
INVARIANTS InRange Kept Right
PROPERTY Ends
CHECK_DEADLOCK FALSE
