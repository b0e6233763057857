SPECIFICATION Spec
INVARIANT Covered
