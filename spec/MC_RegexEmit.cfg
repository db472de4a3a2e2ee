SPECIFICATION Spec
CONSTANTS Depth = 2 Texts = 2
INVARIANTS Emit
CHECK_DEADLOCK FALSE
