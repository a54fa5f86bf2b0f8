CONSTANTS MInit <- FSInit  MStep <- FSStep  MInv <- FSInv  MStarts <- FSStarts  MEvents <- FSEvents
MDepth = 3
INIT Init
NEXT Next
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE
