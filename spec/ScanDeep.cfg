CONSTANTS MaxN = 6
 MaxC = 3
 MaxK = 5
 Fault = ""
INIT Init
NEXT Next
INVARIANT Blocks Complete
CHECK_DEADLOCK FALSE
