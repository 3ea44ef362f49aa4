CONSTANTS MaxN = 5
 MaxG = 4
 Fault = "slice"
INIT Init
NEXT Next
INVARIANT Spans Mirror
CHECK_DEADLOCK FALSE
