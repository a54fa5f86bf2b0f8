CONSTANTS MInit <- LVInit  MStep <- LVStep  MInv <- LVInv  MStarts <- LVStarts  MEvents <- LVEvents
MDepth = 2
INIT Init
NEXT Next
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE
