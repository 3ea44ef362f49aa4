CONSTANTS N = 2
 C = 2
 E = {0, 1, 2}
 Fault = "late"
INIT Init
NEXT Next
INVARIANT Chain
INVARIANT Steady
INVARIANT Total
INVARIANT Centred
CHECK_DEADLOCK FALSE
