CONSTANTS MaxS = 2
 MaxB = 3
 Rounds = 2
 Fault = "swap"
INIT Init
NEXT Next
INVARIANT Apart
INVARIANT Given
CHECK_DEADLOCK FALSE
