CONSTANT Deep = FALSE
INIT Init
NEXT Next
INVARIANT EdgesAreJoint
CHECK_DEADLOCK FALSE
