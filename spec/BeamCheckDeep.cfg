CONSTANTS N = 3
 C = 2
 K = 2
 E = {0, 1}
 Slip = FALSE
INIT Init
NEXT Next
INVARIANT Kept Aligned InOrder Exact
CHECK_DEADLOCK FALSE
