CONSTANTS MInit <- GnInit  MStep <- GnStep  MInv <- GnInv  MStarts <- GnStarts  MEvents <- GnEvents
MDepth = 1
INIT Init
NEXT Next
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE
