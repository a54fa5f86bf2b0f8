CONSTANTS MInit <- BmInit  MStep <- BmStep  MInv <- BmInv  MStarts <- BmStarts  MEvents <- BmEvents
MDepth = 1
INIT Init
NEXT Next
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE
