CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
CONSTANTS Deep = FALSE Record = FALSE
INVARIANTS FlagsRight Decides Reordered Accepted
