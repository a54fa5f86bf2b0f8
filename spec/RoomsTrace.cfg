CONSTANTS MInit <- RmInit  MStep <- RmStep  MMatch <- RmMatch  MInv <- RmInv
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
