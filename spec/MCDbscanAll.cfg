SPECIFICATION Spec
CONSTANTS N = 4
 Span = 3
 MaxMS = 4
 AllOrders = TRUE
INVARIANTS LabelsOK Respects Dense ReachedOK
CHECK_DEADLOCK FALSE
