\* every transition of the 4-item manager, one insertion order per set, emitted for replay
SPECIFICATION EditSpec
CONSTANTS Items = {1, 2, 3, 4}
          MaxIds = 4
VIEW ViewSet
INVARIANTS TypeOK CacheIsClosure CacheDisjoint Consistent RejectIffContradicts GroupsPartition CountingComplete InvolvedOK RangeOK HistoryIndependent
PROPERTIES RejectedChangesNothing
INVARIANT EmitState
ACTION_CONSTRAINT EmitTrans
CHECK_DEADLOCK FALSE
