CONSTANTS Slots = {1, 2, 3}
 Depth = 16
 Kinds = {"chain", "semi", "dep:multi", "dep:single", "depl:multi", "depl:single", "span", "cfg", "np:multi", "np:single", "auto"}
 Leaky = FALSE
 Kindred = TRUE
 Emitting = TRUE
INIT Init
NEXT Next
INVARIANT Emit Purity
CHECK_DEADLOCK FALSE
