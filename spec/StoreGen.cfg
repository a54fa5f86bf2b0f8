CONSTANTS MInit <- SRInit  MStep <- SRStep  MInv <- SRInv  MStarts <- SRStarts  MEvents <- SREvents
MDepth = 4
INIT Init
NEXT Next
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE
