CONSTANTS Deep = FALSE
 Fault = "slope"
INIT Init
NEXT Next
INVARIANT Slopes
CHECK_DEADLOCK FALSE
