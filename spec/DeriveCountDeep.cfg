CONSTANTS Deep = TRUE
 Fault = "none"
INIT Init
NEXT Next
INVARIANT Count
CHECK_DEADLOCK FALSE
