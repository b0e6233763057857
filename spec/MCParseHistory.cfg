SPECIFICATION Spec
CONSTANT HistLen = 3
CONSTRAINT Bound
PROPERTY Isolated
