SPECIFICATION Spec
CONSTANTS NC = 2
 HPROC <- H3
 THANDLE <- T3
 RANGES <- R2
 MAXLOCKS = 1
 BUGS = {"close at once"}
INVARIANTS Safe Enforced Exactly KernelSane NoLostWakeup Descriptors
PROPERTIES Abstract
CHECK_DEADLOCK FALSE
