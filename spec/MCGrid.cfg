CONSTANTS
  Origins = {0, 125000, 3333000}
  Below = {125000}
  Sizes = {1000, 2500, 7000, 30000}
  Counts = {1, 2, 5, 7}
  Mix = 5
SPECIFICATION Spec
INVARIANT Tiles
INVARIANT CentresInside
