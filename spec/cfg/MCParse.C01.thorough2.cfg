SPECIFICATION Spec
CONSTANT Family = "FamIdleMore"
CONSTANT Emit = TRUE
INVARIANTS TypeOK Recognises NeverGivesBack NeverStuck
CHECK_DEADLOCK FALSE
