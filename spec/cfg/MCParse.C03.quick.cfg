SPECIFICATION Spec
CONSTANT Family = "FamUni"
CONSTANT Emit = TRUE
INVARIANTS TypeOK WidthOne SameMeaning
CHECK_DEADLOCK FALSE
