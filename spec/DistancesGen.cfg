CONSTANTS MInit <- DiInit  MStep <- DiStep  MInv <- DiInv  MStarts <- DiStarts  MEvents <- DiEvents
MDepth = 1
INIT Init
NEXT Next
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE
