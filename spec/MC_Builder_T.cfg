CONSTANTS
  Themes = {"map", "rules", "kern", "head", "glyphs"}
  Depth = 6
INIT Init
NEXT Next
INVARIANTS Encodable SaysSo Sound
CHECK_DEADLOCK FALSE
