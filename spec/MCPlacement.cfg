CONSTANTS
  Tops = {3000, 3100}
  Bottoms = {0, 700}
  Aggs = {1000, 1300}
  Buffers = {0, 500, 1000}
  Depth = 800
  Lx = 8000
  Counts = {0, 1, 2}
  Steps = {0, 1500}
  Angles = {0, 20, 45, 70, 90, 135, 180}
  NegAngles = {15, 50, 90, 120}
SPECIFICATION Spec
INVARIANTS OnLevels InElement FromTop AllLevels Followers
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
