SPECIFICATION Spec
CONSTANTS
 N = 2
 Vals = {"-2","-1","0","1","3"}
 Tols = {"1/2","1","2"}
 Schemes = {0,1,2,3,4,5}
INVARIANTS Integral Minors PivotMinor SingularIff SomePivot Prod LastIsDet SolveExact
CHECK_DEADLOCK FALSE
