CONSTANTS MaxN = 4 Lo = 4 Hi = 4 Den = 4 Fault = "none"
INIT Init
NEXT Next
INVARIANTS OnSimplex Support Closest Accepted Unique Ordered Moves
CHECK_DEADLOCK FALSE
