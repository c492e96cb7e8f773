INIT GInit
NEXT GNext
VIEW GView
CONSTANTS Elems = {}
          MaxCap = 6
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
