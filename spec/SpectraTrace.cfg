CONSTANTS MInit <- SPInit  MStep <- SPStep  MMatch <- SPMatch  MInv <- SPInv
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
