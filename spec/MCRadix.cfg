SPECIFICATION Spec
CONSTANTS Emitting = TRUE NSym = 3 MaxKey = 2 NVals = 2 MaxPairs = 3 Bug = "none"
INVARIANT Agree WellFormed Search Way Injective Compositional Emit
CHECK_DEADLOCK FALSE
