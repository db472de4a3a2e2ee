SPECIFICATION Spec
CONSTANTS Depth = 0 Laws = TRUE Deep = TRUE
VIEW View
INVARIANTS Satisfiable SatModes Theorems Emit
CHECK_DEADLOCK FALSE
