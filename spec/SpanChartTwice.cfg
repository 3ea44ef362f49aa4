CONSTANTS MaxN = 5
 MaxG = 4
 Fault = "twice"
INIT Init
NEXT Next
INVARIANT Spans Mirror
CHECK_DEADLOCK FALSE
