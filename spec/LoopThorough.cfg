SPECIFICATION Spec
CONSTANTS N = 4
 MaxBatch = 2
 Restrs = {0, 1, 2}
INVARIANTS NeverRejected Bounded KnowledgeIsTrue EndIsTruth OnlyClustering
PROPERTY EventuallyComplete
CHECK_DEADLOCK FALSE
