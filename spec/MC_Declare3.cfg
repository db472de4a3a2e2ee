SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Consistent Once Commute Emit
PROPERTY Narrows
CHECK_DEADLOCK FALSE
