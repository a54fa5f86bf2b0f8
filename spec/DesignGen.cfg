CONSTANTS MInit <- DsInit  MStep <- DsStep  MInv <- DsInv  MStarts <- DsStarts  MEvents <- DsEvents
MDepth = 1
INIT Init
NEXT Next
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE
