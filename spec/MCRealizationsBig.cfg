SPECIFICATION Spec
CONSTANT Files = {"f1", "f2"}
CONSTANT MaxSteps = 12
CONSTANT MaxNum = 12
INVARIANT Separate
INVARIANT DistinctDirs
