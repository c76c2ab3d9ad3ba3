SPECIFICATION Spec
CONSTANTS Emitting = TRUE P = 13 D = 6 Omega = 2 Secret = 11 Vals = {0, 1, 5} Steps = 6 Bug = "none"
VIEW NoCount
INVARIANT Incremental Equal Complete OtherValue Emit
CHECK_DEADLOCK FALSE
