SPECIFICATION Spec
CONSTANT Family = "few"
CONSTANT Steps = 4
CONSTANT Emit = TRUE
INVARIANTS AllThere NothingLost Told
PROPERTIES Extends
CHECK_DEADLOCK FALSE
