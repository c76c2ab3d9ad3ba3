SPECIFICATION Spec
CONSTANTS Emitting = TRUE P = 11 D = 4 Omega = 0 Secret = 7 Vals = {0, 1, 3} Steps = 4 Bug = "none"
VIEW NoCount
INVARIANT Incremental Equal Complete OtherValue Emit
CHECK_DEADLOCK FALSE
