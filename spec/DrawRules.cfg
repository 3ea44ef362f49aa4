CONSTANTS Circuits = {"rules"} M = 1 Law1 = "value"
INIT Init
NEXT Next
INVARIANTS Whole Law Supported
CHECK_DEADLOCK FALSE
