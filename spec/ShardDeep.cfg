CONSTANTS MaxDim = 3 Rank = 3 Fault = "none"
INIT Init
NEXT Next
INVARIANTS Value Gradient
CHECK_DEADLOCK FALSE
