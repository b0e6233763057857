CONSTANTS
  Origins = {0, 125000, 3333000, 1234567}
  Below = {125000, 9000}
  Sizes = {1000, 2500, 3000, 7000, 9000, 11000, 30000}
  Counts = {1, 2, 3, 5, 7, 9}
  Mix = 12
SPECIFICATION Spec
INVARIANT Tiles
INVARIANT CentresInside
