SPECIFICATION Spec
CONSTANT Family = "FamIdleMore"
CONSTANT Emit = TRUE
INVARIANTS TypeOK Selected FurthestOfAlternatives
CHECK_DEADLOCK FALSE
