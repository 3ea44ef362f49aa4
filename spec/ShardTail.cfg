CONSTANTS MaxDim = 2 Rank = 2 Fault = "tail"
INIT Init
NEXT Next
INVARIANTS Value Gradient
CHECK_DEADLOCK FALSE
