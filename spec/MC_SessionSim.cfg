SPECIFICATION Spec
CONSTANT Depth = 7
INVARIANTS Sound Emit
CHECK_DEADLOCK FALSE
