SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS Consistent Once Commute Emit
PROPERTY Narrows
CHECK_DEADLOCK FALSE
