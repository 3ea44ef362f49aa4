CONSTANTS MaxS = 2
 MaxB = 3
 Rounds = 2
 Fault = "slot"
INIT Init
NEXT Next
INVARIANT Apart
INVARIANT Given
CHECK_DEADLOCK FALSE
