CONSTANTS Circuits = {"chain","span"} M = 3 Law1 = "value"
INIT Init
NEXT Next
INVARIANTS Whole Law Supported
CHECK_DEADLOCK FALSE
