SPECIFICATION Spec
CONSTANTS Elems = {1, 2}
          MaxCap = 4
INVARIANT TypeOK
PROPERTIES NoReorder CapKeeps PeekReadOnly
CHECK_DEADLOCK FALSE
