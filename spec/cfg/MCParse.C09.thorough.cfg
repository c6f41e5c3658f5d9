SPECIFICATION Spec
CONSTANT Family = "FamAbortMore"
CONSTANT Emit = TRUE
INVARIANTS TypeOK DebugOnlyAddsPath
CHECK_DEADLOCK FALSE
