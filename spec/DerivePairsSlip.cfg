CONSTANTS Deep = FALSE
 Fault = "pairs"
INIT Init
NEXT Next
INVARIANT Pairs
CHECK_DEADLOCK FALSE
