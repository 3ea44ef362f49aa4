CONSTANTS Deep = TRUE
 Fault = "none"
INIT Init
NEXT Next
INVARIANT Events Terms2 Number
CHECK_DEADLOCK FALSE
