SPECIFICATION Spec
CONSTANTS Emitting = TRUE Ar = 256 MaxKey = 2 MaxPath = 2 Menu = 1 Bug = "none"
INVARIANT Sound Complete Emit
CHECK_DEADLOCK FALSE
