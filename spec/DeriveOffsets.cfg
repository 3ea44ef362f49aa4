CONSTANTS Deep = FALSE
 Fault = "none"
INIT Init
NEXT Next
INVARIANT Offsets
CHECK_DEADLOCK FALSE
