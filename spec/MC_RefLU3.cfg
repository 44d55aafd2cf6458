SPECIFICATION Spec
CONSTANTS
 N = 3
 Vals = {"-1","0","2"}
 Tols = {"1"}
 Schemes = {3}
INVARIANTS Integral Minors PivotMinor SingularIff SomePivot Prod LastIsDet SolveExact
CHECK_DEADLOCK FALSE
