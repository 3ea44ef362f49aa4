CONSTANTS Deep = FALSE
 Fault = "loose"
INIT Init
NEXT Next
INVARIANT Right
CHECK_DEADLOCK FALSE
