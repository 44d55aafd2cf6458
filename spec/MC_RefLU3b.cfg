SPECIFICATION Spec
CONSTANTS
 N = 3
 Vals = {"0","1","-2"}
 Tols = {"1/2"}
 Schemes = {4}
INVARIANTS Integral Minors PivotMinor SingularIff SomePivot Prod LastIsDet SolveExact
CHECK_DEADLOCK FALSE
