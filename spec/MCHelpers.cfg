CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
CONSTANTS Deep = FALSE Record = FALSE
INVARIANTS LinRight LinEnds LinEven LinBack MeshRight MeshComplete MeshReads
