CONSTANTS MInit <- BmInit  MStep <- BmStep  MMatch <- BmMatch  MInv <- BmInv
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
