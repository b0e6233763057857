CONSTANTS
  Azims = {0, 1000, 30000, 45000, 90000, 123400, 180000, 200000, 270000, 359000}
  BelowAzims = {20500, 90000, 725000}
  Dips = {0, 500, 10000, 30000, 45000, 60250, 90000, 135000, 180000}
  BelowDips = {15000, 90000}
  Ratios = {10000, 15000, 20000, 50000, 100000, 1000000, 5000, 1000}
SPECIFICATION Spec
INVARIANTS Symmetric SameAsRotated NormalValue PlaneValues Trace3 Isotropic Flat HalfTurn FullTurn
CHECK_DEADLOCK FALSE
