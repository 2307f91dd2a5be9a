SPECIFICATION Spec
CONSTANTS N = 4
 MaxBatch = 3
 Restrs = {0}
INVARIANTS NeverRejected Bounded KnowledgeIsTrue EndIsTruth OnlyClustering
PROPERTY EventuallyComplete
CHECK_DEADLOCK FALSE
