SPECIFICATION Spec
CONSTANT HistLen = 4
CONSTRAINT Bound
PROPERTY Isolated
