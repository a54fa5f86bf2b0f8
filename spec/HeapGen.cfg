CONSTANTS MInit <- HPInit  MStep <- HPStep  MInv <- HPInv  MStarts <- HPStarts  MEvents <- HPEvents
MDepth = 3
INIT Init
NEXT Next
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE
