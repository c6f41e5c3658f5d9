SPECIFICATION Spec
CONSTANT Family = "small"
CONSTANT Registers = {1, 2, 3}
CONSTANT Steps = 5
CONSTANT Emit = FALSE
INVARIANTS HoldsWhatWasPut MergeIsAdding Printed
PROPERTIES OnlyThat OthersKeep
CHECK_DEADLOCK FALSE
