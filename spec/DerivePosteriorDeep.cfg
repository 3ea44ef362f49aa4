CONSTANTS Deep = TRUE
 Fault = "none"
INIT Init
NEXT Next
INVARIANT Posterior
CHECK_DEADLOCK FALSE
