SPECIFICATION Spec
CONSTANT Family = "more"
CONSTANT Emit = TRUE
INVARIANTS Compiles AsWritten InOrder NothingElse
CHECK_DEADLOCK FALSE
