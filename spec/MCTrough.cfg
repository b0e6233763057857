CONSTANTS
  Alphas = {0, 30, 90, 135, 200}
  BelowAlphas = {60}
SPECIFICATION Spec
INVARIANTS LowerHalf WithinAxes Symmetric Images HalfTurn QuarterTurn
CHECK_DEADLOCK FALSE
