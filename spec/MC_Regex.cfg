SPECIFICATION Spec
CONSTANTS Depth = 2 Texts = 2
INVARIANTS Meaning Found Emit
CHECK_DEADLOCK FALSE
