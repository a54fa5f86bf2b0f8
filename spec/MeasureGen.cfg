CONSTANTS MInit <- MEInit  MStep <- MEStep  MInv <- MEInv  MStarts <- MEStarts  MEvents <- MEEvents
MDepth = 2
INIT Init
NEXT Next
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE
