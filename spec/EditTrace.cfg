CONSTANTS MInit <- EDInit  MStep <- EDStep  MMatch <- EDMatch  MInv <- EDInv
INIT Init
NEXT Next
INVARIANT Inv
CHECK_DEADLOCK FALSE
