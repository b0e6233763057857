CONSTANTS
  MaxN = 7
  Ends = {500, 1000, 1500}
SPECIFICATION Spec
INVARIANTS Reached Commutes EndsMet Monotone Untouched NoTrend
CHECK_DEADLOCK FALSE
