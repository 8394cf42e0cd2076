CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
CONSTANTS E = 24 Deep = FALSE
CONSTANT Room <- Room8
INVARIANTS WithinTolerance Meaningful RoundsOnce
