CONSTANTS MInit <- TrInit  MStep <- TrStep  MInv <- TrInv  MStarts <- TrStarts  MEvents <- TrEvents
MDepth = 1
INIT Init
NEXT Next
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE
