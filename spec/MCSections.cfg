SPECIFICATION Spec
INVARIANT Total
INVARIANT NeverInvalid
INVARIANT OwnNameWins
INVARIANT RequiredReported
INVARIANT UnknownHarmless
