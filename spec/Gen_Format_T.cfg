INIT GInit
NEXT GNext
CONSTANT Choices = 5
CHECK_DEADLOCK FALSE
