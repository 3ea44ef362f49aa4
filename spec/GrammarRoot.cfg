CONSTANTS Deep = FALSE
 Fault = "root"
INIT Init
NEXT Next
INVARIANT Mean
CHECK_DEADLOCK FALSE
