SPECIFICATION Spec
CONSTANT MaxLen = 8
INVARIANT RoundTrip
INVARIANT Balanced
INVARIANT Plain
INVARIANT BlankFree
PROPERTY Stuck
