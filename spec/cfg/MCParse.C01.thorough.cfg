SPECIFICATION Spec
CONSTANT Family = "FamTwo"
CONSTANT Emit = TRUE
INVARIANTS TypeOK Recognises NeverGivesBack NeverStuck
CHECK_DEADLOCK FALSE
