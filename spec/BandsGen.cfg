CONSTANTS MInit <- MBInit  MStep <- MBStep  MInv <- MBInv  MStarts <- MBStarts  MEvents <- MBEvents
MDepth = 2
INIT Init
NEXT Next
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE
