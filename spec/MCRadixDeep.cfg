SPECIFICATION Spec
CONSTANTS Emitting = TRUE NSym = 2 MaxKey = 3 NVals = 2 MaxPairs = 5 Bug = "none"
INVARIANT Agree WellFormed Search Way Injective Compositional Emit
CHECK_DEADLOCK FALSE
