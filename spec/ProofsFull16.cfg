SPECIFICATION Spec
CONSTANTS Emitting = FALSE Ar = 16 MaxKey = 3 MaxPath = 3 Menu = 2 Bug = "none"
INVARIANT Sound Complete Emit
CHECK_DEADLOCK FALSE
