CONSTANTS N = 6
 Aggr = TRUE
 AllNames = FALSE
SPECIFICATION Spec
INVARIANTS Covers Structure DegreeBound DegreeExact Disjoint Sizes Elements Fill NoFill Progress
CHECK_DEADLOCK FALSE
