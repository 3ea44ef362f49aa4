CONSTANTS Deep = FALSE
 Fault = "dual"
INIT Init
NEXT Next
INVARIANT Expect
CHECK_DEADLOCK FALSE
