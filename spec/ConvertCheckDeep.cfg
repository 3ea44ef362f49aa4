CONSTANT Deep = TRUE
INIT Init
NEXT Next
INVARIANT Faithful
CHECK_DEADLOCK FALSE
