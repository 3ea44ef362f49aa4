CONSTANTS N = 2
 C = 3
 K = 2
 E = {0, 1}
 Slip = FALSE
INIT Init
NEXT Next
INVARIANT Kept Aligned InOrder Exact
CHECK_DEADLOCK FALSE
