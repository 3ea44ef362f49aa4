CONSTANTS Deep = FALSE
 Fault = "offset"
INIT Init
NEXT Next
INVARIANT Offsets
CHECK_DEADLOCK FALSE
