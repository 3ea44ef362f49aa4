CONSTANTS MaxW = 4
 Fault = "root"
INIT Init
NEXT Next
INVARIANT Spans Mirror Answer
CHECK_DEADLOCK FALSE
