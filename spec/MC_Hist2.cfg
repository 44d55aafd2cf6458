SPECIFICATION Spec
CONSTANTS
 N = 4
 Vals = {0, 1}
 Zero = 99
 Rhs <- Last
INVARIANTS Exact Histories Skipped Outside Factors Singular Solved
CHECK_DEADLOCK FALSE
