CONSTANTS
  MaxN = 4
  Elev = {0, 10000, 22500, 30000, 70000}
  NegElev = {20000}
  Z0 = 10000
  H = 60000
SPECIFICATION Spec
INVARIANT NeverCross
INVARIANT Fills
INVARIANT AtItsElevation
INVARIANT ReachesBottom
