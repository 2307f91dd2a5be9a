------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of sessions recorded from the implementation.                *)
(*                                                                         *)
(* The file named by the environment variable TRACE holds one JSON event   *)
(* per line.  The specification carries its own state (the managers of the *)
(* session: ordered items and annotations) through the same transitions as *)
(* Manager.tla, and judges every recorded outcome and observation against  *)
(* it.  The verdict is total: an event the specification does not allow    *)
(* prints FAIL with the names of the violated clauses, and the run goes on *)
(* from the specification's own state.  Clause names start with the        *)
(* property they belong to.                                                *)
(***************************************************************************)
EXTENDS Agglomeration, Large, CDbscan, AffinityPropagation, MpcKMeans, Text, Params, TLC, Json, IOUtils

TraceLog == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,        \* next line
          M,        \* handle -> [ids, A]: managers of the session
          last,     \* handle -> last observation
          memo,     \* set of <<key, result>>: results seen in this session
          asked,    \* interactive loop: pairs asked so far
          nfail
tvars == <<l, M, last, memo, asked, nfail>>

e == TraceLog[l]
Has(f) == f \in DOMAIN e
Set(s) == {s[i] : i \in DOMAIN s}
Put(f, x, v) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN v ELSE f[z]]
Unless(tag, ok) == IF ok THEN {} ELSE {tag}
If(c, S) == IF c THEN S ELSE {}

----------------------------------------------------------------------------
(* Manager calls: next abstract state and expected outcome *)
Mgd(m) == Set(M[m].ids)
KM(m) == Know(Mgd(m), M[m].A)
Blank2(s) == [ids |-> s, A |-> {}]

ManagerOps == {"new", "addid", "delid", "addc", "delc", "reload"}
Expected ==      \* "ok" / "ValueError"
  CASE e.op = "new" -> "ok"
    [] e.op = "reload" -> "ok"
    [] e.op = "addid" -> IF e.x \in Mgd(e.m) THEN "ValueError" ELSE "ok"
    [] e.op = "delid" -> IF e.x \in Mgd(e.m) THEN "ok" ELSE "ValueError"
    [] e.op = "delc" -> IF {e.x, e.y} \subseteq Mgd(e.m) THEN "ok" ELSE "ValueError"
    [] e.op = "addc" -> IF /\ {e.x, e.y} \subseteq Mgd(e.m) /\ e.t \in Types
                           /\ ~ Conflict(KM(e.m), e.x, e.y, e.t)
                        THEN "ok" ELSE "ValueError"
AfterCall ==     \* new M
  IF Expected # "ok" THEN M ELSE
  CASE e.op = "new" -> Put(M, e.m, Blank2(e.ids))
    [] e.op = "reload" -> Put(M, e.d, M[e.m])
    [] e.op = "addid" -> Put(M, e.m, [M[e.m] EXCEPT !.ids = Append(@, e.x)])
    [] e.op = "delid" -> Put(M, e.m, [ids |-> SelectSeq(M[e.m].ids, LAMBDA z : z # e.x),
                                      A |-> {a \in M[e.m].A : a[1] # e.x /\ a[2] # e.x}])
    [] e.op = "delc" -> Put(M, e.m, [M[e.m] EXCEPT !.A =
                              IF e.x = e.y THEN @ ELSE @ \ {Ann(e.x, e.y, ML), Ann(e.x, e.y, CL)}])
    [] e.op = "addc" -> IF e.x = e.y \/ Added(M[e.m].A, e.x, e.y) # NONE THEN M
                        ELSE Put(M, e.m, [M[e.m] EXCEPT !.A = @ \cup {Ann(e.x, e.y, e.t)}])
(* a well-formed annotation: only its consistency is in question (C02);    *)
(* otherwise it is a membership / parameter error (C05)                    *)
WellFormed == e.op = "addc" /\ {e.x, e.y} \subseteq Mgd(e.m) /\ e.t \in Types
CallFails ==
  LET ok == e.out = Expected IN
  Unless(CASE e.op = "addc" -> IF WellFormed THEN "C02.outcome" ELSE "C05.outcome"
           [] e.op \in {"reload"} -> "C10.outcome"
           [] e.op \in {"delid", "delc"} /\ Expected = "ok" -> "C04.outcome"
           [] OTHER -> "C05.outcome", ok)
  \cup If(e.op \in {"delid"} /\ ~ ok, {"C05.outcome"})
  \cup If(e.op = "addc" /\ ~ WellFormed /\ ~ ok, {"C22.outcome"})
  \cup If(Has("truth") /\ ~ ok, {"C21.annotation_rejected"})

----------------------------------------------------------------------------
(* Observations of a manager *)
Matrix(o) == {<<o.ids[i], o.ids[j], o.inf[i][j], IF i = j THEN 0 ELSE o.add[i][j]>> : i, j \in DOMAIN o.ids}
CompSets(o) == {Set(o.comps[i]) : i \in DOMAIN o.comps}
SameIds == Set(e.ids) = Mgd(e.m) /\ Len(e.ids) = Cardinality(Mgd(e.m))
ObsFails ==
  LET m == e.m
      k == KM(m)
      n == Len(e.ids)
      A == M[m].A
      gs == Groups(k)
  IN Unless("C05.managed_items", e.ids = M[m].ids)
     \cup If(e.quiet /\ m \in DOMAIN last,        \* only rejected calls and queries since
         Unless("C03.unchanged", /\ e.ids = last[m].ids
                                 /\ Matrix(e) = Matrix(last[m])
                                 /\ CompSets(e) = CompSets(last[m])
                                 /\ e.compl = last[m].compl
                                 /\ (Has("rng") /\ "rng" \in DOMAIN last[m]) => e.rng = last[m].rng))
     \cup If(SameIds,
         Unless("C05.annotations", \A i, j \in 1 .. n : i # j =>
                     e.add[i][j] = Added(A, e.ids[i], e.ids[j]))
         \cup Unless("C05.annotation_value", e.val)
         \cup Unless("C01.inferred", \A i, j \in 1 .. n : e.inf[i][j] = Inf(k, e.ids[i], e.ids[j]))
         \cup Unless("C06.groups", /\ {Set(e.comps[i]) : i \in DOMAIN e.comps} = gs
                                   /\ Len(e.comps) = Cardinality(gs)
                                   /\ \A i \in DOMAIN e.comps : Len(e.comps[i]) = Cardinality(Set(e.comps[i])))
         \cup Unless("C06.groups_vs_inference",
                \A i, j \in 1 .. n : (e.inf[i][j] = ML) <=>
                     (\E c \in DOMAIN e.comps : {e.ids[i], e.ids[j]} \subseteq Set(e.comps[c])))
         \cup Unless("C07.complete", e.compl = Complete(k))
         \cup If(Has("rng") /\ Cardinality(gs) >= 2,
                Unless("C08.max", e.rng[2] = Cardinality(gs))
                \cup Unless("C08.order", 2 <= e.rng[1] /\ e.rng[1] <= e.rng[2])
                \cup Unless("C08.achievable",
                       IF Cardinality(gs) <= 14 THEN e.rng[1] >= 0 /\ Colourable(k, e.rng[1])
                       ELSE Clique(k, Set(e.clique)) => e.rng[1] >= Cardinality({k.rep[x] : x \in Set(e.clique)}))
                \cup Unless("C08.tight",
                       IF Cardinality(gs) <= 5
                       THEN \A c \in 2 .. (e.rng[1] - 1) : ~ Colourable(k, c)
                       ELSE e.rng[1] <= 2 \/ e.rng[1] <= 1 + Max({Degree(k, v) : v \in Reps(k)}))))
(* Two managers with the same abstract state report the same: tag says     *)
(* why they should (quiet twin C03, fresh manager C04, restored copy C10)  *)
TwinFails ==
  LET a == last[e.a] b == last[e.b] IN
  If(M[e.a].A = M[e.b].A /\ Mgd(e.a) = Mgd(e.b),
     Unless(e.tag \o ".twin_knowledge", Matrix(a) = Matrix(b))
     \cup Unless(e.tag \o ".twin_items", (M[e.a].ids = M[e.b].ids) => a.ids = b.ids)
     \cup Unless(e.tag \o ".twin_groups",
             CompSets(a) = CompSets(b)
             /\ Len(a.comps) = Len(b.comps))
     \cup Unless(e.tag \o ".twin_complete", a.compl = b.compl))

(* Queries *)
QueryFails ==      \* a getter called with possibly unmanaged items
  LET known == {e.x, e.y} \subseteq Mgd(e.m) IN
  Unless("C05.query_outcome", e.out = IF known THEN "ok" ELSE "ValueError")
ConflictFails ==
  LET wf == {e.x, e.y} \subseteq Mgd(e.m) /\ e.t \in Types
      k == KM(e.m)
      conflict == Conflict(k, e.x, e.y, e.t)
  IN IF ~ wf THEN Unless("C09.outcome", e.out = "ValueError")
     ELSE Unless("C09.outcome", e.out = "ok")
          \cup If(e.out = "ok",
               Unless("C09.nothing_iff_acceptable", e.some = conflict)
               \cup If(e.some /\ conflict,
                    Unless("C09.involved_groups",
                       /\ Set(e.items) = Involved(k, e.x, e.y)
                       /\ Len(e.items) = Cardinality(Set(e.items)))))

----------------------------------------------------------------------------
(* Sampling *)
SampleFails ==
  LET k == KM(e.m)
      A == M[e.m].A
      lab == e.lab
      E == Eligible(k, A, lab, e.restr, e.wa, e.wi)
      pairs == e.pairs
  IN IF e.out # "ok" THEN {"C11.outcome"} ELSE
     Unless("C11.eligible", SampleEligible(pairs, E))
     \cup Unless("C11.distinct", SampleDistinct(pairs))
     \cup Unless("C11.size", SampleSize(pairs, E, e.nb))
     \cup If(e.dist # AnyDist /\ SampleEligible(pairs, E),
          Unless("C12.sorted", SampleSorted(pairs, e.vec, e.dist))
          \cup Unless("C12.extreme", SampleExtreme(pairs, E, e.vec, e.dist)))
     \cup If(Has("truth"),
          Unless("C21.never_asks_twice", \A i \in DOMAIN pairs : pairs[i] \notin asked)
          \cup Unless("C21.progress", Complete(k) \/ e.restr # AnyCluster \/ e.nb = 0 \/ pairs # <<>>))
(* every eligible pair is drawn by some seed; e.pairs: all the draws       *)
CoverFails ==
  LET E == Eligible(KM(e.m), M[e.m].A, e.lab, e.restr, e.wa, e.wi) IN
  IF e.out # "ok" THEN {"C29.outcome"}
  ELSE IF E = {} \/ e.nb = 0 THEN {}
  ELSE Unless("C29.every_pair_can_be_drawn", E \subseteq UNION {Set(e.draws[i]) : i \in DOMAIN e.draws})
       \cup Unless("C29.not_always_the_same", Cardinality(E) <= e.nb \/ Cardinality({Set(e.draws[i]) : i \in DOMAIN e.draws}) > 1)
RestrictTo(f, I) == [x \in I |-> f[x]]
(* what a result may depend on: the annotations, or (C30) what they say     *)
Said == IF Has("view") THEN <<>> ELSE IF Has("eqv") THEN <<KM(e.m)>> ELSE <<M[e.m].A>>
(* (C31) spectral clustering sees distances only: the real one of unknown  *)
(* pairs, zero for a must-link, infinite for a cannot-link.  Beyond 6 units *)
(* per square root of dimension the affinity is below the float precision  *)
(* (recorded vectors are in eighths of a unit).                            *)
Far == 64 * 36 * Len(e.vec[CHOOSE x \in Mgd(e.m) : TRUE])
(* (C33) the relative position of the managed items                        *)
Distances == [x, y \in Mgd(e.m) |-> D2(e.vec[x], e.vec[y])]
View == IF Has("view")
        THEN [x, y \in Mgd(e.m) |-> CASE Inf(KM(e.m), x, y) = ML -> 0
                                      [] Inf(KM(e.m), x, y) = CL -> Far
                                      [] OTHER -> Min({D2(e.vec[x], e.vec[y]), Far})]
        ELSE IF Has("iso") THEN Distances
        ELSE RestrictTo(e.vec, Mgd(e.m))
MemoTag(clause, t) == CASE Has("iso") -> "C33." \o clause [] Has("ren") -> "C27." \o clause [] Has("eqv") -> "C30." \o clause [] Has("view") -> "C31." \o clause [] OTHER -> t
SampleKey == <<"sample", M[e.m].ids, Said, e.restr, e.dist, e.wa, e.wi, e.nb, e.seed,
               IF e.restr # AnyCluster THEN RestrictTo(e.lab, Mgd(e.m)) ELSE <<>>,
               IF e.dist = AnyDist THEN <<>> ELSE IF Has("iso") THEN Distances ELSE RestrictTo(e.vec, Mgd(e.m)) >>
MemoFails(tag, key, res) ==
  Unless(tag, \A r \in memo : r[1] = key => r[2] = res)

----------------------------------------------------------------------------
(* Clustering.  e.keys: items labelled; e.lab: label per item of the       *)
(* universe (only those in e.keys are meaningful)                          *)
ClusterKey == <<"cluster", e.alg, e.par, M[e.m].ids, Said, e.nb, e.seed, View>>
ClusterRes == <<Set(e.keys), RestrictTo(e.lab, Set(e.keys) \cap DOMAIN e.lab)>>
NbItems == Cardinality(Mgd(e.m))
MinOf(a, b) == IF a < b THEN a ELSE b
(* no clustering of the managed items at all: every guarantee about the    *)
(* algorithm's answer is broken with it                                    *)
NoAnswer(what) == {p \o "." \o e.alg \o "_" \o what :
     p \in CASE e.alg = "kmeans" -> {"C15", "C18", "C19"}
            [] e.alg = "hierarchical" -> {"C15", "C17", "C18"}
            [] e.alg \in {"spectral", "mpckmeans"} -> {"C18"} \cup If(e.alg = "mpckmeans", {"C32"})
            [] e.alg = "affinity_propagation" -> {"C16", "C28", "C35"}
            [] OTHER -> {"C16", "C26", "C34"}}
  \cup If(Has("truth"), {"C21.final_clustering"})
ClusterFails ==
  LET m == e.m
      I == Mgd(m)
      k == KM(m)
      lab == e.lab
      keysOK == Set(e.keys) = I /\ Len(e.keys) = Cardinality(I) /\ e.ints
      B == Blocks(I, lab)
      nbl == Cardinality(B)
      hier == e.alg = "hierarchical"
  IN IF e.out # "ok" THEN {"C14.outcome"} \cup NoAnswer("outcome")
     ELSE IF ~ keysOK THEN {"C14.items"} \cup NoAnswer("items")
     ELSE
     (IF e.alg = "dbscan"
      THEN Unless("C14.noise_labels", NoiseOK(I, lab))
           \cup Unless("C14.canonical", RegularOK(I, lab))
           \cup Unless("C14.counts",
                  /\ e.cnt[1] = Cardinality({lab[x] : x \in {y \in I : lab[y] >= 0}})
                  /\ e.cnt[2] = Cardinality({x \in I : lab[x] < 0})
                  /\ e.cnt[3] = e.cnt[1] + e.cnt[2])
           \cup Unless("C16.dbscan_cannot_link", RespectsCL(k, lab))
           \cup Unless("C26.density", DensityOK(k, I, e.vec, e.eps2, e.ms, lab))
           \cup If(Has("epssize"), Unless("C34.procedure",
                  RestrictTo(lab, I) = DbscanRun(k, M[m].ids, RestrictTo(e.vec, I), e.eps2, e.epssize, e.ms)))
           \cup If(M[m].A = {},
                If(e.epsle1, Unless("C26.reached_items_clustered", DensityAllOK(I, e.vec, e.eps2, e.ms, lab))))
      ELSE Unless("C14.canonical", Canonical(I, lab)))
     \cup If(e.alg \in {"kmeans", "hierarchical"},
          Unless("C15.must_link", RespectsML(k, lab))
          \cup Unless("C15.cannot_link", RespectsCL(k, lab)))
     \cup If(e.alg = "affinity_propagation" /\ e.aml,
          Unless("C16.ap_must_link", RespectsML(k, lab))
          \cup If(RespectsML(k, lab) /\ Has("exemplars"), Unless("C28.exemplars", Exemplary(k, e.vec, B))))
     \cup If(Has("ap"),
          IF ~ (\A x, y \in I : Rounded(e.dd[x][y], D2(e.vec[x], e.vec[y]))) THEN {"MACHINERY.distances"}
          ELSE Unless("C35.propagation",
                 SamePartition(I, lab, ApRun(k, [x, y \in I |-> e.dd[x][y]], e.aml, e.ap.conv, e.ap.maxit))))
     \cup If(e.alg = "mpckmeans", Unless("C18.mpc_count", nbl = MinOf(e.nb, NbItems)))
     \cup If(e.alg = "spectral", Unless("C18.spectral_count", nbl <= MinOf(e.nb, NbItems)))
     \cup If(e.alg = "kmeans", Unless("C18.kmeans_count",
               nbl <= MinOf(e.nb, NbItems) \/ k.clash # {}))
     \cup If(hier /\ Has("nodes"),
          IF ~ TreeShape(k, e.nodes) THEN {"C17.shape"}
          ELSE Unless("C17.merges", (~ Has("metric")) \/ (IF Has("dd") THEN MergesOK(k, "ward2", e.dd, e.nodes)
                                                                  ELSE MergesOK(k, e.link, e.vec, e.nodes)))
               \cup Unless("C17.forced_root", ForcedTop(k, e.nodes))
               \cup Unless("C17.export", e.export)
               \cup Unless("C18.count", nbl = CutCount(e.nodes, e.nb))
               \cup Unless("C18.cut_of_tree", CutIsAntichain(e.nodes, B))
               \cup Unless("C18.cut_order", CutOrderOK(e.nodes, B, e.by)))
     \cup If(e.alg = "kmeans" /\ Has("cent"),
          LET labels == {lab[x] : x \in I} IN
          Unless("C19.centroid_keys", Set(e.centk) = labels /\ Len(e.centk) = Cardinality(labels))
          \cup If(Set(e.centk) = labels,
               Unless("C19.centroid_values", \A i \in DOMAIN e.centk :
                   MeanOK(e.vec, {x \in I : lab[x] = e.centk[i]}, e.cent[i]))))
     \cup If(e.alg = "kmeans" /\ Has("iter"),
          Unless("C19.step",
             IF e.iter = 1 THEN Has("noseeds") \/ SeedOK(k, e.vec, MinOf(e.nb, NbItems), B)
             ELSE StepOK(k, e.vec, Blocks(I, e.prev), B)))
     \cup If(e.alg = "kmeans" /\ Has("its"),
          LET stable(t) == t > 1 /\ SameMeans(e.vec, Blocks(I, e.its[t - 1]), Blocks(I, e.its[t])) IN
          Unless("C19.run_is_an_iterate",
             \/ (e.lim > Len(e.its) /\ ~ (\E t \in DOMAIN e.its : stable(t)))  \* went on further
             \/ \E t \in DOMAIN e.its : /\ Blocks(I, e.its[t]) = B
                                       /\ (t = e.lim \/ stable(t))))
     \cup If(Has("truth"),
          Unless("C21.final_clustering", Canonical(I, lab) /\ B = Blocks(I, e.truth)))
(* the rounds of MPC-kmeans: e.its, the labels after at most 1, 2, ... rounds *)
MpcFails ==
  LET I == Mgd(e.m) IN
  IF e.out # "ok" THEN {"C32.outcome"}
  ELSE Unless("C32.rounds", MpcRun(KM(e.m), e.vec, MinOf(e.nb, NbItems), e.w2, [t \in DOMAIN e.its |-> Blocks(I, e.its[t])]))
(* re-cut of the tree of the last hierarchical clustering *)
CutFails ==
  LET I == Mgd(e.m) k == KM(e.m) lab == e.lab B == Blocks(I, lab) IN
  IF e.out # "ok" \/ Set(e.keys) # I THEN {"C18.cut_outcome", "C14.items"}
  ELSE IF ~ TreeShape(k, e.nodes) THEN {"C17.shape"}
  ELSE Unless("C14.canonical", Canonical(I, lab))
       \cup Unless("C15.must_link", RespectsML(k, lab))
       \cup Unless("C15.cannot_link", RespectsCL(k, lab))
       \cup Unless("C18.count", Cardinality(B) = CutCount(e.nodes, e.nb))
       \cup Unless("C18.cut_of_tree", CutIsAntichain(e.nodes, B))
       \cup Unless("C18.cut_order", CutOrderOK(e.nodes, B, e.by))

(* end of an interactive session driven by a ground truth *)
LoopEndFails ==
  LET k == KM(e.m) IN
  Unless("C21.complete", e.compl /\ Complete(k))
  \cup Unless("C21.groups_are_truth", Groups(k) = Blocks(Mgd(e.m), e.truth))
  \cup Unless("C21.bounded", e.steps <= (NbItems * (NbItems - 1)) \div 2)

(* clusters renumbered by order of first appearance                        *)
RenameFails ==
  LET n == Len(e.lab) IN
  IF e.out # "ok" THEN {"C36.outcome"}
  ELSE Unless("C36.items", e.keys = [i \in 1 .. n |-> i])
       \cup Unless("C36.canonical", CanonicalRun(e.got))
       \cup Unless("C36.same_clusters",
              Cardinality({<<e.lab[i], e.got[i]>> : i \in 1 .. n}) = Cardinality(Set(e.lab)) /\ Cardinality(Set(e.lab)) = Cardinality(Set(e.got)))
       \cup Unless("C36.input_unmodified", e.same)
(* inputs given to a call must be left alone *)
InputsFails == Unless(e.tag \o ".inputs_unmodified", e.same)

----------------------------------------------------------------------------
(* A thousand items: the groups come with a certificate (Large.tla)        *)
BigA == {<<e.A[i][1], e.A[i][2], e.A[i][3]>> : i \in DOMAIN e.A}
BigK == LET A == BigA I == Set(e.order) IN
        IF Assert(Certified(I, A, e.seg, e.up, e.dep), "wrong certificate") THEN LargeKnow(I, A, e.seg) ELSE {}
BigObsFails ==
  LET k == TLCEval(BigK)
      f == Unless("C05.large_items", e.ids = e.order)
        \cup Unless("C01.large_inferred", \A i \in DOMAIN e.inf : e.inf[i][3] = Inf(k, e.inf[i][1], e.inf[i][2]))
        \cup Unless("C06.large_groups", GroupsAre(k, e.comps))
        \cup Unless("C07.large_complete", e.compl = CompleteByGroups(k))
        \cup If(Cardinality(Reps(k)) >= 2,
             Unless("C08.large_max", e.rng[2] = Cardinality(Reps(k)))
             \cup If(Cardinality(Reps(k)) <= 5, Unless("C08.large_min", e.rng[1] >= 2 /\ Colourable(k, e.rng[1])
                                              /\ \A c \in 2 .. (e.rng[1] - 1) : ~ Colourable(k, c))))
        \cup Unless("C02.large_outcome", \A i \in DOMAIN e.tries : Conflict(k, e.tries[i][1], e.tries[i][2], e.tries[i][3]) => e.tries[i][4] = "ValueError")
        \cup Unless("C09.large_involved", \A i \in DOMAIN e.conf : Conflict(k, e.conf[i][1], e.conf[i][2], e.conf[i][3])
                       => InvolvedAre(k, e.conf[i][1], e.conf[i][2], e.conf[i][4]))
  IN f \cup If(e.after # "" /\ f # {}, {e.after \o ".large"})
BigCluFails ==
  LET k == TLCEval(BigK)
      n == Len(e.order)
      labels == Set(e.lab)
      seq == e.lab
  IN IF e.out # "ok" \/ ~ e.keysok THEN {"C14.large_outcome"} \cup NoAnswer("large")
     ELSE Unless("C14.large_canonical", CanonicalRun(seq))
          \cup If(e.alg \in {"kmeans", "hierarchical"}, Unless("C15.large_must_link", MLKept(k, e.lab)) \cup Unless("C15.large_cannot_link", CLKept(k, e.lab)))
          \cup If(e.alg = "affinity_propagation", Unless("C16.large_must_link", MLKept(k, e.lab)))
          \cup If(e.alg = "mpckmeans", Unless("C18.large_count", Cardinality(labels) = MinOf(e.nb, n)))

----------------------------------------------------------------------------
(* Texts *)
FreqFails == IF e.out # "ok" THEN {"C23.outcome"} ELSE
  Unless("C23.labels", FreqKeys(e.lab, e.tab))
  \cup Unless("C23.values", FreqValues(e.lab, e.tab))
  \cup Unless("C23.inputs_unmodified", e.same)
TfidfFails ==
  LET gs == TLCEval(AllGrams(e.texts))
      df == TLCEval(DocFreq(gs))
      V == TLCEval(Vocabulary(df))
      S == TLCEval([i \in DOMAIN e.texts |-> gs[i] \cap V]) IN
  IF V = {} THEN Unless("C25.empty_vocabulary", e.out = "ValueError")
  ELSE IF e.out # "ok" THEN {"C25.outcome"} ELSE
  Unless("C25.keys", e.keysok)
  \cup Unless("C25.dimension", \A i \in DOMAIN e.dim : e.dim[i] = Cardinality(V))
  \cup Unless("C25.support", \A i \in DOMAIN e.nnz : e.nnz[i] = Cardinality(S[i]))
  \cup Unless("C25.weights", Len(e.wt) = Len(e.texts) /\ \A i \in DOMAIN e.texts : WeightsOK(e.texts[i], S[i], df, e.idf, e.wt[i]))
  \cup Unless("C25.positive", e.pos)
  \cup Unless("C25.unit", \A i \in DOMAIN e.norm :
          IF S[i] = {} THEN e.norm[i] = 0 ELSE Near(e.norm[i], 1000000))
  \cup Unless("C25.orthogonal_iff_disjoint", \A i, j \in DOMAIN e.texts :
          (e.dot[i][j] = 0) <=> (S[i] \cap S[j] = {}))
  \cup Unless("C25.equal_texts", \A i, j \in DOMAIN e.texts :
          e.texts[i] = e.texts[j] => Near(e.dot[i][j], IF S[i] = {} THEN 0 ELSE 1000000))
  \cup Unless("C25.inputs_unmodified", e.same)
SpvecFails == IF ~ e.ok THEN {"C25.language_model_vectors"} ELSE
  Unless("C25.language_model_vectors", Len(e.vec) = Len(e.texts) /\ \A i \in DOMAIN e.vec : MeanVecOK(e.texts[i], e.wv, e.vec[i]))
  \cup Unless("C25.inputs_unmodified", e.same)
PrepFails == Unless("C24.text", e.out = Preprocessed(e.text, e.chars, e.words, e.sw, e.pf, e.le))
ParamFails == Unless("C22." \o e.fn, e.out = IF Valid(e.fn, e.v) THEN "ok" ELSE "ValueError")
FactFails == Unless(e.tag, e.ok)

----------------------------------------------------------------------------
Fails ==
  CASE e.op \in ManagerOps -> CallFails
    [] e.op = "obs"     -> ObsFails
    [] e.op = "twin"    -> TwinFails
    [] e.op = "query"   -> QueryFails
    [] e.op = "confl"   -> ConflictFails
    [] e.op = "sample"  -> SampleFails \cup (IF e.out = "ok" /\ e.seed >= 0
                                  THEN MemoFails(MemoTag("sampling", "C13.reproducible"), SampleKey, e.pairs) ELSE {})
    [] e.op = "cluster" -> ClusterFails \cup (IF e.out = "ok" /\ e.seed >= 0
                                  THEN MemoFails(MemoTag("clustering", "C20.reproducible"), ClusterKey, ClusterRes) ELSE {})
    [] e.op = "cut"     -> CutFails
    [] e.op = "mpc"     -> MpcFails
    [] e.op = "bigobs"  -> BigObsFails
    [] e.op = "bigclu"  -> BigCluFails
    [] e.op = "cover"   -> CoverFails
    [] e.op = "loopend" -> LoopEndFails
    [] e.op = "inputs"  -> InputsFails
    [] e.op = "freq"    -> FreqFails
    [] e.op = "rename"  -> RenameFails
    [] e.op = "tfidf"   -> TfidfFails
    [] e.op = "spvec"   -> SpvecFails
    [] e.op = "prep"    -> PrepFails
    [] e.op = "param"   -> ParamFails
    [] e.op = "fact"    -> FactFails
    [] OTHER            -> {}

Init == l = 1 /\ M = [h \in {} |-> 0] /\ last = [h \in {} |-> 0] /\ memo = {} /\ asked = {} /\ nfail = 0
Next ==
  /\ l <= Len(TraceLog)
  /\ l' = l + 1
  /\ LET f == Fails IN
     /\ IF f # {} THEN PrintT("F" \o ToJson([l |-> l, f |-> SetToSeq(f)])) ELSE TRUE
     /\ nfail' = nfail + (IF f # {} THEN 1 ELSE 0)
  /\ M' = IF e.op = "begin" THEN [h \in {} |-> 0]
          ELSE IF e.op \in ManagerOps THEN AfterCall ELSE M
  /\ last' = IF e.op = "begin" THEN [h \in {} |-> 0]
             ELSE IF e.op = "obs" THEN Put(last, e.m, e)
             ELSE last
  /\ memo' = IF e.op = "begin" THEN {}
             ELSE IF e.op = "sample" /\ e.out = "ok" /\ e.seed >= 0 THEN memo \cup {<<SampleKey, e.pairs>>}
             ELSE IF e.op = "cluster" /\ e.out = "ok" /\ e.seed >= 0 THEN memo \cup {<<ClusterKey, ClusterRes>>}
             ELSE memo
  /\ asked' = IF e.op = "begin" THEN {}
              ELSE IF e.op = "sample" /\ Has("truth") THEN asked \cup Set(e.pairs) ELSE asked
TraceSpec == Init /\ [][Next]_tvars
Consumed == TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
