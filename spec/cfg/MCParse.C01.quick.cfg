SPECIFICATION Spec
CONSTANT Family = "FamOne"
CONSTANT Emit = TRUE
INVARIANTS TypeOK Recognises NeverGivesBack NeverStuck
CHECK_DEADLOCK FALSE
