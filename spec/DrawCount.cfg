CONSTANTS Circuits = {"chain"} M = 1 Law1 = "count"
INIT Init
NEXT Next
INVARIANTS Whole Law Supported
CHECK_DEADLOCK FALSE
