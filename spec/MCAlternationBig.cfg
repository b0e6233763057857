CONSTANTS N = 5
SPECIFICATION Spec
INVARIANTS IsWalk OnlyElementFacies NeverStuck StepsListed
CHECK_DEADLOCK FALSE
