SPECIFICATION Spec
CONSTANT Family = "FamLit"
CONSTANT Emit = TRUE
INVARIANTS TypeOK ReadsBack
VIEW View
CHECK_DEADLOCK FALSE
