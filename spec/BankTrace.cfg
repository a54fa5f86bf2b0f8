CONSTANTS MInit <- BKInit  MStep <- BKStep  MMatch <- BKMatch  MInv <- BKInv
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
