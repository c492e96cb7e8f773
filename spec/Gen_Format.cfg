INIT GInit
NEXT GNext
CONSTANT Choices = 2
CHECK_DEADLOCK FALSE
