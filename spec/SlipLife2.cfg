CONSTANT AllTypes = TRUE
SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
PROPERTY DownRefuses
PROPERTY FailureKeeps
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
