CONSTANTS MInit <- TrInit  MStep <- TrStep  MMatch <- TrMatch  MInv <- TrInv
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
