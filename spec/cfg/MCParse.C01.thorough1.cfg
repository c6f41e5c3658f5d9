SPECIFICATION Spec
CONSTANT Family = "FamRep"
CONSTANT Emit = TRUE
INVARIANTS TypeOK Recognises NeverGivesBack NeverStuck
CHECK_DEADLOCK FALSE
