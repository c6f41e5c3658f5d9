SPECIFICATION Spec
CONSTANT Family = "FamPosMore"
CONSTANT Emit = TRUE
INVARIANTS TypeOK Located
CHECK_DEADLOCK FALSE
