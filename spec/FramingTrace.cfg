CONSTANTS MInit <- FRInit  MStep <- FRStep  MMatch <- FRMatch  MInv <- FRInv
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
