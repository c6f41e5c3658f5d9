SPECIFICATION Spec
CONSTANT Family = "FamTwo"
CONSTANT Emit = TRUE
INVARIANTS TypeOK DebugOnlyAddsPath
CHECK_DEADLOCK FALSE
