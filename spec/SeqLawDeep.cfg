CONSTANTS N = 3
 C = 2
 E = {0, 1}
 Fault = "none"
INIT Init
NEXT Next
INVARIANT Chain
INVARIANT Steady
INVARIANT Total
INVARIANT Centred
CHECK_DEADLOCK FALSE
