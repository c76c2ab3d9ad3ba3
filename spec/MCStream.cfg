SPECIFICATION Spec
CONSTANTS Emitting = TRUE MaxPairs = 2 Bug = "none"
INVARIANT NothingInvented Exact Sizes Emit
CHECK_DEADLOCK FALSE
