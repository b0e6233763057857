CONSTANTS
  M = 7
SPECIFICATION Spec
INVARIANT Accepts
INVARIANT Rejects
