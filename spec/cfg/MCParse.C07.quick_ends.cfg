SPECIFICATION FairSpec
CONSTANT Family = "FamRecQuick"
CONSTANT Emit = FALSE
PROPERTIES Ends
CHECK_DEADLOCK FALSE
