SPECIFICATION Spec
CONSTANTS N = 5
 MaxBatch = 1
 Restrs = {0}
INVARIANTS NeverRejected Bounded KnowledgeIsTrue EndIsTruth OnlyClustering
PROPERTY EventuallyComplete
CHECK_DEADLOCK FALSE
