----------------------------- MODULE MCManager -----------------------------
(* Exhaustive checking of Manager, and emission of every transition for    *)
(* replay into the implementation.                                         *)
EXTENDS Manager, Json
View == <<ids, A, saved>>            \* order of insertion observed
ViewSet == <<Managed, A>>            \* one representative order per set
Obs == [ids |-> ids, A |-> SetToSeq(A),
        inf |-> [i \in 1 .. Len(ids) |-> [j \in 1 .. Len(ids) |-> Inf(k, ids[i], ids[j])]],
        groups |-> [i \in 1 .. Len(ids) |-> k.rep[ids[i]]],
        complete |-> Complete(k),
        chrom |-> IF ids = <<>> THEN 0 ELSE ChromaticNumber(k),
        maxn |-> Cardinality(Groups(k)),
        conflicts |-> SetToSeq({<<x, y, t>> \in Managed \X Managed \X Types : Conflict(k, x, y, t)})]
EmitState == PrintT("S" \o ToJson(Obs))
EmitTrans == PrintT("T" \o ToJson([pre |-> [ids |-> ids, A |-> SetToSeq(A)], ev |-> ev',
                                        post |-> [ids |-> ids', A |-> SetToSeq(A')]]))
=============================================================================
