SPECIFICATION Spec
CONSTANTS Depth = 2 Laws = TRUE Deep = FALSE
VIEW View
INVARIANTS Satisfiable SatModes Theorems Emit
CHECK_DEADLOCK FALSE
