SPECIFICATION Spec
CONSTANT Family = "FamTwo"
CONSTANT Emit = TRUE
INVARIANTS TypeOK Selected FurthestOfAlternatives
CHECK_DEADLOCK FALSE
