CONSTANTS MaxW = 5
 Fault = ""
INIT Init
NEXT Next
INVARIANT Spans Mirror Answer
CHECK_DEADLOCK FALSE
