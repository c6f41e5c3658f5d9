SPECIFICATION Spec
CONSTANT Family = "FamAbort"
CONSTANT Emit = TRUE
INVARIANTS TypeOK AbortIsSaid NoAbortLost
PROPERTIES StaysAborted
CHECK_DEADLOCK FALSE
