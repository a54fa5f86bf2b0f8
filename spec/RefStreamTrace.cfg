CONSTANTS MInit <- RSInit  MStep <- RSStep  MMatch <- RSMatch  MInv <- RSInv
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
