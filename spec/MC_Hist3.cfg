SPECIFICATION Spec
CONSTANTS
 N = 3
 Vals = {0, 1, 2, 99}
 Zero = 99
 Rhs <- Last
INVARIANTS Exact Histories Skipped Outside Factors Singular Solved
CHECK_DEADLOCK FALSE
