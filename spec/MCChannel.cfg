CONSTANTS
  Angles = {0, 25, 90, 150}
  BelowAngles = {40, 90}
SPECIFICATION Spec
CONSTRAINT Bound
INVARIANTS OrderDoesNotMatter SkippedAreOutside
CHECK_DEADLOCK FALSE
