CONSTANTS Workers = {1, 2, 3}
Steps = 2
Rounds = 3
SPECIFICATION Spec
INVARIANTS Exclusive SlotAccurate OwnResult NoBadRelease
PROPERTY Terminates
CHECK_DEADLOCK TRUE
