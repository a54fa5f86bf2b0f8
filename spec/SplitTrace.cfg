CONSTANTS MInit <- SpInit  MStep <- SpStep  MMatch <- SpMatch  MInv <- SpInv
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
