SPECIFICATION FairSpec
CONSTANTS NC = 2
 HPROC <- H3
 THANDLE <- T3
 RANGES <- R1
 MAXLOCKS = 1
 BUGS = {}
PROPERTIES Ends
CHECK_DEADLOCK FALSE
