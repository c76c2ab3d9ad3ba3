SPECIFICATION Spec
CONSTANTS Emitting = TRUE Arities = {2, 16, 256} Bug = "none"
INVARIANT RoundTrip Truncated Extended Emit
CHECK_DEADLOCK FALSE
