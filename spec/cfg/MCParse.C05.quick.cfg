SPECIFICATION Spec
CONSTANT Family = "FamTwoQuick"
CONSTANT Emit = TRUE
INVARIANTS TypeOK Selected FurthestOfAlternatives
CHECK_DEADLOCK FALSE
