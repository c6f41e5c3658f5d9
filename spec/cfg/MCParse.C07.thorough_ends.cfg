SPECIFICATION FairSpec
CONSTANT Family = "FamRec"
CONSTANT Emit = FALSE
PROPERTIES Ends
CHECK_DEADLOCK FALSE
