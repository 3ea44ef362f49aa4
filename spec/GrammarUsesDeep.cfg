CONSTANTS Deep = TRUE
 Fault = "none"
INIT Init
NEXT Next
INVARIANT Uses2
CHECK_DEADLOCK FALSE
