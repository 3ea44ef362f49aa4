CONSTANTS MaxS = 2
 MaxB = 3
 Rounds = 2
 Fault = "first"
INIT Init
NEXT Next
INVARIANT Apart
INVARIANT Given
CHECK_DEADLOCK FALSE
