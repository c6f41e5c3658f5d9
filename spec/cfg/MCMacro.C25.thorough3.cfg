SPECIFICATION Spec
CONSTANT Family = "atoms"
CONSTANT Emit = TRUE
INVARIANTS Compiles AsWritten InOrder NothingElse
CHECK_DEADLOCK FALSE
