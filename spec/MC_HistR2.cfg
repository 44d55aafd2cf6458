SPECIFICATION RandSpec
CONSTANTS
 N = 5
 Vals = {0}
 Zero = 99
 Rhs <- Last
 Count = 4000
INVARIANTS Exact Histories Skipped Factors Singular Solved Show
CHECK_DEADLOCK FALSE
