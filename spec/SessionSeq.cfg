CONSTANTS Slots = {1, 2, 3}
 Depth = 16
 Kinds = {"chain", "semi", "cfg", "auto"}
 Leaky = FALSE
 Kindred = TRUE
 Emitting = TRUE
INIT Init
NEXT Next
INVARIANT Emit Purity
CHECK_DEADLOCK FALSE
