CONSTANTS Deep = TRUE
 Fault = "none"
INIT Init
NEXT Next
INVARIANT Mean
CHECK_DEADLOCK FALSE
