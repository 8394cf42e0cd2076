CHECK_DEADLOCK FALSE
SPECIFICATION Spec
CONSTANTS Record = FALSE  MaxOps = 0  Handles = 1  Few = TRUE
INVARIANTS ObjectsOk OutRight Answers Refusals
PROPERTIES ObjectsKept Ends
