CONSTANT MaxDim = 2
CONSTANT MaxNz = 3
CONSTANT Hi = 3
CONSTANT Vals = {"0", "-2"}
SPECIFICATION Spec
INVARIANT ListsACellSet
INVARIANT TripletsAreDistinct
INVARIANT DenseIsValid
INVARIANT CountIsCount
INVARIANT RowsAgree
INVARIANT Show
PROPERTY Conversions
CHECK_DEADLOCK FALSE
