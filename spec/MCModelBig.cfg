SPECIFICATION Spec
CONSTANTS K = 3
 MaxObj = 2
INVARIANTS Assigned Correct
CHECK_DEADLOCK FALSE
