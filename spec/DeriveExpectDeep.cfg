CONSTANTS Deep = TRUE
 Fault = "none"
INIT Init
NEXT Next
INVARIANT Expect Cross
CHECK_DEADLOCK FALSE
