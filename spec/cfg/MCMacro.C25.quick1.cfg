SPECIFICATION Spec
CONSTANT Family = "lists"
CONSTANT Emit = TRUE
INVARIANTS Compiles AsWritten InOrder NothingElse
CHECK_DEADLOCK FALSE
