CONSTANTS MInit <- FRInit  MStep <- FRStep  MInv <- FRInv  MStarts <- FRStarts  MEvents <- FREvents
MDepth = 3
INIT Init
NEXT Next
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE
