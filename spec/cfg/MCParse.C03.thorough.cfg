SPECIFICATION Spec
CONSTANT Family = "FamUniMore"
CONSTANT Emit = TRUE
INVARIANTS TypeOK WidthOne SameMeaning
CHECK_DEADLOCK FALSE
