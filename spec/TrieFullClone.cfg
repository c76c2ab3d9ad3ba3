SPECIFICATION Spec
CONSTANTS Emitting = FALSE Ar = 256 Menu = 7 NVals = 1 NObj = 2 Reads = FALSE MaxLen = 99 Bug = "none"
VIEW NoPath
CONSTRAINT Bounded
ACTION_CONSTRAINT Emit
INVARIANT NoCrash IsView IsCommitted IsPersisted IsPersistedTerms
PROPERTY CommitQuiet OnlyPersistWrites
CHECK_DEADLOCK FALSE
