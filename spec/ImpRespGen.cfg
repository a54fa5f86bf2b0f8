CONSTANTS MInit <- ImInit  MStep <- ImStep  MInv <- ImInv  MStarts <- ImStarts  MEvents <- ImEvents
MDepth = 1
INIT Init
NEXT Next
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE
