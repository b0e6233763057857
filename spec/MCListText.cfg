SPECIFICATION Spec
CONSTANT MaxLen = 6
INVARIANT RoundTrip
INVARIANT Balanced
INVARIANT Plain
INVARIANT BlankFree
PROPERTY Stuck
