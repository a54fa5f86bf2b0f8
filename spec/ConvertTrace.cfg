CONSTANTS MInit <- CVInit  MStep <- CVStep  MMatch <- CVMatch  MInv <- CVInv
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
