INIT GInit
NEXT GNext
VIEW GView
CONSTANTS Elems = {}
          MaxCap = 4
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
