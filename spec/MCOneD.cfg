CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
CONSTANTS Deep = FALSE Record = FALSE
INVARIANTS LookupRight HoldsRight LinearRight HoldsMean LikeNd Mirrored Meets GridAccepted
