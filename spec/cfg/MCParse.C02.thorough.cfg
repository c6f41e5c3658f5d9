SPECIFICATION Spec
CONSTANT Family = "FamTwo"
CONSTANT Emit = TRUE
INVARIANTS TypeOK Derivation
CHECK_DEADLOCK FALSE
