SPECIFICATION Spec
CONSTANT Family = "FamDamagedQuick"
CONSTANT Emit = TRUE
INVARIANTS TypeOK SaysWhere Critically
VIEW View
CHECK_DEADLOCK FALSE
