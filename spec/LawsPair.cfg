CONSTANTS Kinds = {"naive"} Size = 1
INIT Init
NEXT Next
INVARIANTS Units Annihilates Commutes Associates Distributes Selects
CHECK_DEADLOCK FALSE
