CONSTANTS Slots = {1, 2}
 Depth = 4
 Kinds = {"chain", "semi", "dep:multi", "dep:single", "depl:multi", "depl:single", "span", "cfg", "np:multi", "np:single"}
 Leaky = FALSE
 Kindred = FALSE
 Emitting = FALSE
INIT Init
NEXT Step
VIEW View
INVARIANT Purity
CHECK_DEADLOCK FALSE
