SPECIFICATION Spec
CONSTANT Jobs = "few"
CONSTANT Each = 2
INVARIANTS SameForAll Unrelated
PROPERTIES BothEnd
CHECK_DEADLOCK FALSE
