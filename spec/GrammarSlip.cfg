CONSTANTS Deep = FALSE
 Fault = "event"
INIT Init
NEXT Next
INVARIANT Events
CHECK_DEADLOCK FALSE
