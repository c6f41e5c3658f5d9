SPECIFICATION Spec
CONSTANT Family = "more"
CONSTANT Steps = 3
CONSTANT Emit = TRUE
INVARIANTS AllThere NothingLost Told
PROPERTIES Extends
CHECK_DEADLOCK FALSE
