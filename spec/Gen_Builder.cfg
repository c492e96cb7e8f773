CONSTANTS
  Themes = {"map", "rules", "kern", "head", "glyphs"}
  Depth = 3
INIT GInit
NEXT GNext
VIEW GView
CHECK_DEADLOCK FALSE
