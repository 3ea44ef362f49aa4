CONSTANTS Deep = FALSE
 Fault = "none"
INIT Init
NEXT Next
INVARIANT Slopes
CHECK_DEADLOCK FALSE
