SPECIFICATION Spec
CONSTANT Family = "FamLitQuick"
CONSTANT Emit = TRUE
INVARIANTS TypeOK ReadsBack
VIEW View
CHECK_DEADLOCK FALSE
