SPECIFICATION Spec
CONSTANTS Emitting = TRUE Ar = 256 MaxKey = 4 MaxPath = 2 Menu = 2 Bug = "none"
INVARIANT Sound Complete Emit
CHECK_DEADLOCK FALSE
