SPECIFICATION Spec
INVARIANTS Exact Refuse Emit
CHECK_DEADLOCK FALSE
