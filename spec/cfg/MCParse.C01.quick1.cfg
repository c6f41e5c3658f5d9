SPECIFICATION Spec
CONSTANT Family = "FamIdle"
CONSTANT Emit = TRUE
INVARIANTS TypeOK Recognises NeverGivesBack NeverStuck
CHECK_DEADLOCK FALSE
