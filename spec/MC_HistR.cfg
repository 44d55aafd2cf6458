SPECIFICATION RandSpec
CONSTANTS
 N = 5
 Vals = {0}
 Zero = 99
 Rhs <- Last
 Count = 200
INVARIANTS Exact Histories Skipped Factors Singular Solved Show
CHECK_DEADLOCK FALSE
