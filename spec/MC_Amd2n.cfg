CONSTANTS N = 5
 Aggr = FALSE
 AllNames = TRUE
SPECIFICATION Spec
INVARIANTS Covers Structure DegreeBound DegreeExact Disjoint Sizes Elements Fill NoFill Progress
CHECK_DEADLOCK FALSE
