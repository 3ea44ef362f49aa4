CONSTANT Deep = TRUE
INIT Init
NEXT Next
INVARIANT EdgesAreJoint
CHECK_DEADLOCK FALSE
