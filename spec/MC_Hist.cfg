SPECIFICATION Spec
CONSTANTS
 N = 3
 Vals = {0, 1, 2}
 Zero = 99
 Rhs <- Ones
INVARIANTS Exact Histories Skipped Outside Factors Singular Solved
CHECK_DEADLOCK FALSE
