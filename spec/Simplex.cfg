CONSTANTS MaxN = 3 Lo = 2 Hi = 3 Den = 2 Fault = "none"
INIT Init
NEXT Next
INVARIANTS OnSimplex Support Closest Accepted Unique Ordered Moves
CHECK_DEADLOCK FALSE
