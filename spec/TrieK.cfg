SPECIFICATION Spec
CONSTANTS Emitting = TRUE Ar = 256 Menu = 7 NVals = 1 NObj = 1 Reads = FALSE MaxLen = 6 Bug = "none"
VIEW NoPath
CONSTRAINT Bounded
ACTION_CONSTRAINT Emit
INVARIANT NoCrash IsView IsCommitted IsPersisted IsPersistedTerms
PROPERTY CommitQuiet OnlyPersistWrites
CHECK_DEADLOCK FALSE
