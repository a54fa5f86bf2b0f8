CONSTANTS MInit <- ACInit  MStep <- ACStep  MInv <- ACInv  MStarts <- ACFreeStarts  MEvents <- ACFree
MDepth = 15
INIT Init
NEXT Next
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE
