CONSTANTS MInit <- CHInit  MStep <- CHStep  MInv <- CHInv  MStarts <- CHStarts  MEvents <- CHEvents
MDepth = 7
INIT Init
NEXT Next
INVARIANT Inv Emit
CHECK_DEADLOCK FALSE
