SPECIFICATION Spec
CONSTANT Depth = 6
INVARIANTS Refines Deterministic Emit
CHECK_DEADLOCK FALSE
