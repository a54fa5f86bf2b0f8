CONSTANTS MInit <- RmInit  MStep <- RmStep  MInv <- RmInv  MStarts <- RmStarts  MEvents <- RmEvents
MDepth = 2
INIT Init
NEXT Next
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE
