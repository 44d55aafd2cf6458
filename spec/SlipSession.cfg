CONSTANT MaxDev = 1
SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
PROPERTY DownRefuses
PROPERTY FailureKeeps
PROPERTY NoFactorsWithoutAnalysis
PROPERTY NoSolutionWithout
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
