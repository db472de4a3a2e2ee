SPECIFICATION Spec
CONSTANT Size = 2
INVARIANTS Spliced Correct Idle Again Emit
CHECK_DEADLOCK FALSE
