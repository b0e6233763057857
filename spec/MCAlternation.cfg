CONSTANTS N = 3
SPECIFICATION Spec
INVARIANTS IsWalk OnlyElementFacies NeverStuck StepsListed
CHECK_DEADLOCK FALSE
