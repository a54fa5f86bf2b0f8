CONSTANTS MInit <- SEInit  MStep <- SEStep  MInv <- SEInv  MStarts <- SEStarts  MEvents <- SEEvents
MDepth = 1
INIT Init
NEXT Next
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE
