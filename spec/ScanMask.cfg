CONSTANTS MaxN = 5
 MaxC = 2
 MaxK = 4
 Fault = "mask"
INIT Init
NEXT Next
INVARIANT Blocks Complete
CHECK_DEADLOCK FALSE
