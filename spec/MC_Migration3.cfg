SPECIFICATION Spec
CONSTANT Size = 3
INVARIANTS Spliced Correct Idle Again Emit
CHECK_DEADLOCK FALSE
