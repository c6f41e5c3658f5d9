SPECIFICATION Spec
CONSTANT Family = "FamRep"
CONSTANT Emit = TRUE
INVARIANTS TypeOK Derivation
CHECK_DEADLOCK FALSE
