CONSTANTS MInit <- DsInit  MStep <- DsStep  MMatch <- DsMatch  MInv <- DsInv
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
