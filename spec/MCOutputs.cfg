CONSTANT MaxN = 3
SPECIFICATION Spec
INVARIANTS Kept Complete TopFirst Apart
CHECK_DEADLOCK FALSE
