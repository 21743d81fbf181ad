SPECIFICATION Spec
CONSTANTS
  PAGES = {1, 2}
  MAXV = 2
  FALLBACK_ON_LOSS = FALSE
  NO_FLUSH = FALSE
  SYNC_FIRST = FALSE
  ALWAYS_DATASYNC = TRUE
  SWALLOW = FALSE
INVARIANT MetaDurable
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
