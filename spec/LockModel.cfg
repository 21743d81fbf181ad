SPECIFICATION Spec
CONSTANTS
  NC = 3
  PROC <- ProcDef
  MAXLOCKS = 3
  EMIT = FALSE
  TWOSH = TRUE
INVARIANTS Safe OwnersOpen ViewSound
PROPERTIES OnlyOwner FailFree Justified
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
