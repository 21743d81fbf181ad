SPECIFICATION Spec
CONSTANTS
  PAGES = {1, 2}
  MAXV = 2
  FALLBACK_ON_LOSS = FALSE
  NO_FLUSH = TRUE
  SYNC_FIRST = FALSE
  ALWAYS_DATASYNC = FALSE
  SWALLOW = FALSE
INVARIANT Durable
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
