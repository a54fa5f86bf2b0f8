CONSTANTS MInit <- GnInit  MStep <- GnStep  MMatch <- GnMatch  MInv <- GnInv
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
