CONSTANTS MInit <- CVInit  MStep <- CVStep  MInv <- CVInv  MStarts <- CVStarts  MEvents <- CVEvents
MDepth = 3
INIT Init
NEXT Next
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE
