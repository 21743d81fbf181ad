SPECIFICATION Spec
CONSTANTS
  PAGES = {1, 2}
  MAXV = 2
  FALLBACK_ON_LOSS = FALSE
  NO_FLUSH = FALSE
  SYNC_FIRST = FALSE
  ALWAYS_DATASYNC = FALSE
  SWALLOW = TRUE
INVARIANT Durable
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
