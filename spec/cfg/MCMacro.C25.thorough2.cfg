SPECIFICATION Spec
CONSTANT Family = "nests"
CONSTANT Emit = TRUE
INVARIANTS Compiles AsWritten InOrder NothingElse
CHECK_DEADLOCK FALSE
