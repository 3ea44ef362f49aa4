CONSTANTS Deep = FALSE
 Fault = "none"
INIT Init
NEXT Next
INVARIANT Posterior Pairs
CHECK_DEADLOCK FALSE
