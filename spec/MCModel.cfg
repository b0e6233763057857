SPECIFICATION Spec
CONSTANTS K = 3
 MaxObj = 1
INVARIANTS Assigned Correct
CHECK_DEADLOCK FALSE
