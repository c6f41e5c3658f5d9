SPECIFICATION Spec
CONSTANT Family = "FamRep"
CONSTANT Emit = TRUE
INVARIANTS TypeOK WithinBounds SameMeaning
CHECK_DEADLOCK FALSE
