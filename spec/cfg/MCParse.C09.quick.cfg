SPECIFICATION Spec
CONSTANT Family = "FamDebug"
CONSTANT Emit = TRUE
INVARIANTS TypeOK DebugOnlyAddsPath
CHECK_DEADLOCK FALSE
