SPECIFICATION Spec
CONSTANTS Depth = 0 Laws = FALSE Deep = TRUE
VIEW View
INVARIANTS Emit
CHECK_DEADLOCK FALSE
