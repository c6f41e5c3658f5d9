SPECIFICATION Spec
CONSTANT Family = "FamDamaged"
CONSTANT Emit = TRUE
INVARIANTS TypeOK SaysWhere Critically
VIEW View
CHECK_DEADLOCK FALSE
