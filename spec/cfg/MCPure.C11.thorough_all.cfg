SPECIFICATION Spec
CONSTANT Jobs = "all"
CONSTANT Each = 1
INVARIANTS SameForAll Unrelated
PROPERTIES BothEnd
CHECK_DEADLOCK FALSE
