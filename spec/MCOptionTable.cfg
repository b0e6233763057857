CONSTANT Big = FALSE
SPECIFICATION Spec
INVARIANT Shaped
INVARIANT Needed
INVARIANT Kept
