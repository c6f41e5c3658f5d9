SPECIFICATION Spec
CONSTANT Family = "small"
CONSTANT Registers = {1, 2}
CONSTANT Steps = 5
CONSTANT Emit = TRUE
INVARIANTS HoldsWhatWasPut MergeIsAdding Printed
PROPERTIES OnlyThat OthersKeep
CHECK_DEADLOCK FALSE
