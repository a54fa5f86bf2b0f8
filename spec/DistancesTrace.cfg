CONSTANTS MInit <- DiInit  MStep <- DiStep  MMatch <- DiMatch  MInv <- DiInv
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
