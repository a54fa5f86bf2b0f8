CONSTANTS MInit <- ACInit  MStep <- ACStep  MInv <- ACInv  MStarts <- ACStarts  MEvents <- ACEvents
MDepth = 4
INIT Init
NEXT Next
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE
