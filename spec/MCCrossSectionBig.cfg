CONSTANTS
  Origins = {0, 125000, 33300, 1234567}
  Below = {125000}
  Sizes = {1000, 2500, 7000, 30000}
  Counts = {1, 2, 4, 5}
  Mix = 60
SPECIFICATION Spec
INVARIANT Rowed
INVARIANT CentreInside
