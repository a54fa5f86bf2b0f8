CONSTANTS MInit <- RsInit  MStep <- RsStep  MMatch <- RsMatch  MInv <- RsInv
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
