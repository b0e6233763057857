SPECIFICATION Spec
CONSTANT Deviations = 1

INVARIANT AcceptedExactly
INVARIANT NamesResolve
INVARIANT NoFlowWithoutSection
