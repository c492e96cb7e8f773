CONSTANTS
  Themes = {"map", "rules", "kern", "head", "glyphs"}
  Depth = 4
INIT Init
NEXT Next
INVARIANTS Encodable SaysSo Sound
CHECK_DEADLOCK FALSE
