SPECIFICATION Spec
CONSTANT Family = "FamRepQuick"
CONSTANT Emit = TRUE
INVARIANTS TypeOK WithinBounds SameMeaning
CHECK_DEADLOCK FALSE
