SPECIFICATION Spec
CONSTANTS Elems = {1, 2}
          MaxCap = 3
INVARIANT AbsTypeOK
PROPERTY Refines
CHECK_DEADLOCK FALSE
