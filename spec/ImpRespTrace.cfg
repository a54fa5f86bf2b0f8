CONSTANTS MInit <- ImInit  MStep <- ImStep  MMatch <- ImMatch  MInv <- ImInv
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
