CONSTANTS MInit <- EfInit  MStep <- EfStep  MMatch <- EfMatch  MInv <- EfInv
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
