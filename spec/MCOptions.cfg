SPECIFICATION Spec
CONSTANT Big = FALSE
INVARIANT ShapeHolds
INVARIANT Stable
INVARIANT Identity
INVARIANT OnlyGiven
INVARIANT RefSelf
