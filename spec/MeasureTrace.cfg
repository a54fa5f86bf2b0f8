CONSTANTS MInit <- MEInit  MStep <- MEStep  MMatch <- MEMatch  MInv <- MEInv
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
