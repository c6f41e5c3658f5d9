SPECIFICATION Spec
CONSTANT Family = "structs"
CONSTANT Emit = TRUE
CONSTANT Rounds = 1
INVARIANTS Compiles SameRules EachOnce AllThere
VIEW View
CHECK_DEADLOCK FALSE
