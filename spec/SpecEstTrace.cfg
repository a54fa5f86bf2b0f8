CONSTANTS MInit <- SEInit  MStep <- SEStep  MMatch <- SEMatch  MInv <- SEInv
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
