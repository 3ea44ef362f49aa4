CONSTANTS Kinds = {"std","mod","max","min","btl","bool","kmax1","kmax2","kmax3","dual","ce","free"} Size = 1
INIT Init
NEXT Next
INVARIANTS Units Annihilates Commutes Associates Distributes Selects
CHECK_DEADLOCK FALSE
