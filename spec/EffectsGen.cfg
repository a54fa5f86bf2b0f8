CONSTANTS MInit <- EfInit  MStep <- EfStep  MInv <- EfInv  MStarts <- EfStarts  MEvents <- EfEvents
MDepth = 2
INIT Init
NEXT Next
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE
