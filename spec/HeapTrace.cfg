CONSTANTS MInit <- HPInit  MStep <- HPStep  MMatch <- HPMatch  MInv <- HPInv
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
