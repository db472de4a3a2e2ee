SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Sound Function
PROPERTY OnlyGrows
CHECK_DEADLOCK FALSE
