\* exhaustive: every interleaving incl. save/load, insertion order observed
SPECIFICATION Spec
CONSTANTS Items = {1, 2, 3}
          MaxIds = 3
VIEW View
INVARIANTS TypeOK CacheIsClosure CacheDisjoint Consistent RejectIffContradicts GroupsPartition CountingComplete InvolvedOK RangeOK HistoryIndependent SavedOK
PROPERTIES RejectedChangesNothing LoadRestores
CHECK_DEADLOCK FALSE
