SPECIFICATION Spec
INVARIANT One
INVARIANT Ordered
INVARIANT Slices
INVARIANT Margin
