SPECIFICATION Spec
CONSTANTS Emitting = TRUE Ar = 2 Menu = 10 NVals = 2 NObj = 2 Reads = TRUE MaxLen = 60 Bug = "none"
VIEW NoPath
CONSTRAINT Bounded
ACTION_CONSTRAINT Emit
INVARIANT NoCrash IsView IsCommitted IsPersisted IsPersistedTerms
PROPERTY CommitQuiet OnlyPersistWrites
CHECK_DEADLOCK FALSE
