CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
CONSTANT Deep = FALSE
INVARIANTS CellRight KindsAgree HitsNodes LinearInData ConstantKept Between FootHolds NearestIsNearest KeepsLines KeepsSquares MirrorSame MoveSame IsHermite SlopesRight Extrapolates PiecesMeet PiecesUsed
