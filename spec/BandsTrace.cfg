CONSTANTS MInit <- MBInit  MStep <- MBStep  MMatch <- MBMatch  MInv <- MBInv
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
