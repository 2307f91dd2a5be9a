SPECIFICATION Spec
CONSTANTS N = 4
 Span = 2
 MaxMS = 3
 Families = {}
INVARIANTS ClustersFree Respects Density ReachedOK OneClusterEach
PROPERTY Terminates
CHECK_DEADLOCK FALSE
