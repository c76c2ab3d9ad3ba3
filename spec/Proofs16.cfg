SPECIFICATION Spec
CONSTANTS Emitting = TRUE Ar = 16 MaxKey = 3 MaxPath = 2 Menu = 1 Bug = "none"
INVARIANT Sound Complete Emit
CHECK_DEADLOCK FALSE
