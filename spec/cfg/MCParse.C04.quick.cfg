SPECIFICATION Spec
CONSTANT Family = "FamPos"
CONSTANT Emit = TRUE
INVARIANTS TypeOK Located
CHECK_DEADLOCK FALSE
