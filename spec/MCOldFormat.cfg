CONSTANT Pairs = TRUE
SPECIFICATION Spec
INVARIANTS IsOld NamesIrrelevant NothingOld
CHECK_DEADLOCK FALSE
