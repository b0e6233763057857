SPECIFICATION Spec
CONSTANT Big = TRUE
INVARIANT ShapeHolds
INVARIANT Stable
INVARIANT Identity
INVARIANT OnlyGiven
INVARIANT RefSelf
