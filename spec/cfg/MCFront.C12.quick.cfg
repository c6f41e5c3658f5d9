SPECIFICATION Spec
CONSTANT Family = "FamStructQuick"
CONSTANT Emit = TRUE
INVARIANTS TypeOK ReadsBack
VIEW View
CHECK_DEADLOCK FALSE
