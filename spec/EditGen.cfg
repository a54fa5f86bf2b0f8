CONSTANTS MInit <- EDInit  MStep <- EDStep  MInv <- EDInv  MStarts <- EDStarts  MEvents <- EDEvents
MDepth = 2
INIT Init
NEXT Next
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE
