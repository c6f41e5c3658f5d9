SPECIFICATION Spec
CONSTANT Family = "names"
CONSTANT Emit = TRUE
INVARIANTS Compiles AsWritten InOrder NothingElse
PROPERTIES Ends
CHECK_DEADLOCK FALSE
