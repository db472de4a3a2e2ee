SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS Sound Function
PROPERTY OnlyGrows
CHECK_DEADLOCK FALSE
