SPECIFICATION Spec
INVARIANTS RoundTrip Identity Partial Emit
CHECK_DEADLOCK FALSE
