CONSTANTS MInit <- RTInit  MStep <- RTStep  MInv <- RTInv  MStarts <- RTStarts  MEvents <- RTEvents
MDepth = 4
INIT Init
NEXT Next
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE
