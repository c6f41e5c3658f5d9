SPECIFICATION Spec
CONSTANT Family = "FamAbortMore"
CONSTANT Emit = TRUE
INVARIANTS TypeOK AbortIsSaid NoAbortLost
PROPERTIES StaysAborted
CHECK_DEADLOCK FALSE
