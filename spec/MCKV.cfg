SPECIFICATION Spec
CONSTANTS Emitting = TRUE Deep = FALSE Bug = "none"
VIEW NoPath
INVARIANT Refines NothingElse
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
