CONSTANTS MInit <- SpInit  MStep <- SpStep  MInv <- SpInv  MStarts <- SpStarts  MEvents <- SpEvents
MDepth = 1
INIT Init
NEXT Next
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE
