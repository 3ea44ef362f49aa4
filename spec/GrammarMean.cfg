CONSTANTS Deep = FALSE
 Fault = "none"
INIT Init
NEXT Next
INVARIANT Mean
CHECK_DEADLOCK FALSE
