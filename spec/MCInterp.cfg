CHECK_DEADLOCK FALSE
INIT Init
NEXT Next
CONSTANT Deep = FALSE
INVARIANTS WellFormed AtNode AsRect AxesSwap Slices Extrudes Combines Constant Range Local Moves Reproduced Smooth Tensor Blend PerAxis
CONSTANT Methods = {"linear", "nearest", "cubic"}
