CONSTANTS
  Coefficients = {0, 1, 2}
  MaxCells = 8
SPECIFICATION Spec
INVARIANTS ZeroMean Scaling ZeroIfNoVariance Parseval Variation
CHECK_DEADLOCK FALSE
