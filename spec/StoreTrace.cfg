CONSTANTS MInit <- SRInit  MStep <- SRStep  MMatch <- SRMatch  MInv <- SRInv
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
