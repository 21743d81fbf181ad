SPECIFICATION Spec
CONSTANTS NC = 2
 HPROC <- H3
 THANDLE <- T3
 RANGES <- R3
 MAXLOCKS = 2
 BUGS = {}
INVARIANTS Safe Enforced Exactly KernelSane NoLostWakeup Descriptors
PROPERTIES Abstract
CHECK_DEADLOCK FALSE
