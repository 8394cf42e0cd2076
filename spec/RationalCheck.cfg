CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
INVARIANTS Both One_ Text
