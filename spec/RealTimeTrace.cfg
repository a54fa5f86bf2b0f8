CONSTANTS MInit <- RTInit  MStep <- RTStep  MMatch <- RTMatch  MInv <- RTInv
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
