CONSTANTS MInit <- LVInit  MStep <- LVStep  MMatch <- LVMatch  MInv <- LVInv
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
