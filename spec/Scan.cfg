CONSTANTS MaxN = 6
 MaxC = 2
 MaxK = 4
 Fault = ""
INIT Init
NEXT Next
INVARIANT Blocks Complete
CHECK_DEADLOCK FALSE
