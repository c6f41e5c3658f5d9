SPECIFICATION Spec
CONSTANT Family = "FamLayoutQuick"
CONSTANT Emit = TRUE
INVARIANTS TypeOK ReadsBack
VIEW View
CHECK_DEADLOCK FALSE
