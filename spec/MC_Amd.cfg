CONSTANTS N = 4
 Aggr = TRUE
 AllNames = TRUE
SPECIFICATION Spec
INVARIANTS Covers Structure DegreeBound DegreeExact Disjoint Sizes Elements Fill NoFill Progress
CHECK_DEADLOCK FALSE
