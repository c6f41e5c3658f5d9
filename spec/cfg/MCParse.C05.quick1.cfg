SPECIFICATION Spec
CONSTANT Family = "FamIdle"
CONSTANT Emit = TRUE
INVARIANTS TypeOK Selected FurthestOfAlternatives
CHECK_DEADLOCK FALSE
