SPECIFICATION Spec
CONSTANT Family = "names3"
CONSTANT Emit = TRUE
INVARIANTS Compiles AsWritten InOrder NothingElse
PROPERTIES Ends
CHECK_DEADLOCK FALSE
