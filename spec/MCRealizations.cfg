SPECIFICATION Spec
CONSTANT Files = {"f1", "f2"}
CONSTANT MaxSteps = 8
CONSTANT MaxNum = 3
INVARIANT Separate
INVARIANT DistinctDirs
