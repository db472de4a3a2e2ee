SPECIFICATION Spec
CONSTANT Depth = 5
INVARIANTS Refines Deterministic Emit
CHECK_DEADLOCK FALSE
