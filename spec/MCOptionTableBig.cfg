CONSTANT Big = TRUE
SPECIFICATION Spec
INVARIANT Shaped
INVARIANT Needed
INVARIANT Kept
