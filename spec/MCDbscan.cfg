SPECIFICATION Spec
CONSTANTS N = 4
 Span = 2
 MaxMS = 3
 AllOrders = FALSE
INVARIANTS LabelsOK Respects Dense ReachedOK
CHECK_DEADLOCK FALSE
