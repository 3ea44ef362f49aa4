CONSTANTS Deep = TRUE
 Fault = "none"
INIT Init
NEXT Next
INVARIANT Slopes
CHECK_DEADLOCK FALSE
