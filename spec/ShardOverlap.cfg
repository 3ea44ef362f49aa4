CONSTANTS MaxDim = 2 Rank = 2 Fault = "overlap"
INIT Init
NEXT Next
INVARIANTS Value Gradient
CHECK_DEADLOCK FALSE
