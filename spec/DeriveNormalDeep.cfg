CONSTANTS Deep = TRUE
 Fault = "none"
INIT Init
NEXT Next
INVARIANT Normal
CHECK_DEADLOCK FALSE
