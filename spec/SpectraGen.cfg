CONSTANTS MInit <- SPInit  MStep <- SPStep  MInv <- SPInv  MStarts <- SPStarts  MEvents <- SPEvents
MDepth = 2
INIT Init
NEXT Next
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE
