CONSTANTS MInit <- FSInit  MStep <- FSStep  MMatch <- FSMatch  MInv <- FSInv
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
