SPECIFICATION Spec
CONSTANT Family = "FamOne"
CONSTANT Emit = TRUE
INVARIANTS TypeOK Derivation
CHECK_DEADLOCK FALSE
