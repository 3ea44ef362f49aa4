CONSTANTS MaxW = 4
 Fault = "mirror"
INIT Init
NEXT Next
INVARIANT Spans Mirror Answer
CHECK_DEADLOCK FALSE
