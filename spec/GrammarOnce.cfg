CONSTANTS Deep = FALSE
 Fault = "once"
INIT Init
NEXT Next
INVARIANT Uses2
CHECK_DEADLOCK FALSE
