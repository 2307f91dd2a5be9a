------------------------------- MODULE Loop --------------------------------
(***************************************************************************)
(* The interactive loop: cluster, sample a batch of pairs, annotate it     *)
(* according to a fixed ground truth, until everything is known.  The      *)
(* clustering is any labelling that respects the constraints; the sampler  *)
(* is any sampler (restricted or not); a restricted sampler that has       *)
(* nothing left to ask is replaced by the unrestricted one.                *)
(***************************************************************************)
EXTENDS Sampling, TLC
CONSTANTS N,          \* number of items
          MaxBatch,   \* pairs per batch
          Restrs      \* cluster restrictions of the samplers considered
VARIABLES truth, A, asked, steps, restr, batch, rejected
vars == <<truth, A, asked, steps, restr, batch, rejected>>
I == 1 .. N
NbPairs == (N * (N - 1)) \div 2
k == Know(I, A)
Answer(p) == IF truth[p[1]] = truth[p[2]] THEN ML ELSE CL
AllLabels == {f \in [I -> 0 .. (N - 1)] : Canonical(I, f)}
LabellingsOf(kk) == {f \in AllLabels : RespectsML(kk, f)}
Labellings == LET kk == k IN LabellingsOf(kk)
Free == Eligible(k, A, [x \in I |-> 0], AnyCluster, TRUE, TRUE)
(* what a sampler may choose, for some clustering                          *)
Batches == LET kk == k
               free == Free
               offered == IF restr = AnyCluster THEN {free}
                          ELSE {{p \in free : (restr = SameCluster) <=> f[p[1]] = f[p[2]]} : f \in LabellingsOf(kk)}
               pools == {IF S = {} THEN free ELSE S : S \in offered}
           IN UNION {kSubset(IF n < Cardinality(P) THEN n ELSE Cardinality(P), P) : n \in 1 .. MaxBatch, P \in pools}
(* a new turn: the batch is chosen on what is known now ...                *)
Turn == /\ batch = {} /\ ~ Complete(k)
        /\ batch' \in Batches
        /\ UNCHANGED <<truth, A, asked, steps, restr, rejected>>
(* ... and annotated pair by pair, in any order                            *)
Annotate(p) == /\ p \in batch
               /\ batch' = batch \ {p}
               /\ steps' = steps + 1
               /\ asked' = asked \cup {p}
               /\ rejected' = (rejected \/ p \in asked \/ Conflict(k, p[1], p[2], Answer(p)))
               /\ A' = A \cup {<<p[1], p[2], Answer(p)>>}
               /\ UNCHANGED <<truth, restr>>
Init == /\ truth \in AllLabels
        /\ A = {} /\ asked = {} /\ steps = 0 /\ batch = {} /\ rejected = FALSE
        /\ restr \in Restrs
Next == Turn \/ \E p \in batch : Annotate(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
(* C21 *)
NeverRejected == ~ rejected
Bounded == steps <= NbPairs /\ Cardinality(asked) = steps
KnowledgeIsTrue == LET kk == k IN \A x, y \in I : Inf(kk, x, y) # NONE => (Inf(kk, x, y) = ML <=> truth[x] = truth[y])
EndIsTruth == LET kk == k IN Complete(kk) => Groups(kk) = Blocks(I, truth)
(* the only clustering left with that many clusters is the truth           *)
OnlyClustering == LET kk == k IN Complete(kk) => {f \in LabellingsOf(kk) : RespectsCL(kk, f)} = {truth}
EventuallyComplete == <>[](Complete(k) /\ batch = {})
=============================================================================
