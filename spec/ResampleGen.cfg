CONSTANTS MInit <- RsInit  MStep <- RsStep  MInv <- RsInv  MStarts <- RsStarts  MEvents <- RsEvents
MDepth = 1
INIT Init
NEXT Next
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE
