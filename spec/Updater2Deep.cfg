SPECIFICATION Spec
CONSTANTS Emitting = TRUE Ar = 2 Deep = TRUE Bug = "none"
VIEW NoPath
INVARIANT Together NothingLost Done
PROPERTY Moves Reported
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
