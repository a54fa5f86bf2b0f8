CONSTANTS MInit <- CHInit  MStep <- CHStep  MMatch <- CHMatch  MInv <- CHInv
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
