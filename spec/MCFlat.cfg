CHECK_DEADLOCK FALSE
SPECIFICATION Spec
CONSTANT Deep = FALSE
INVARIANTS Inside Covers RowsRight EndsWithValue RestoredIndices
CONSTANT Methods = {"linear", "cubic"}
