CONSTANTS MInit <- BKInit  MStep <- BKStep  MInv <- BKInv  MStarts <- BKStarts  MEvents <- BKEvents
MDepth = 2
INIT Init
NEXT Next
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE
