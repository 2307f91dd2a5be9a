------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* The documented domain of every parameter.  A value is abstracted to     *)
(* [k |-> kind, n |-> 1000 * number (or 0), s |-> string (or "")].          *)
(***************************************************************************)
EXTENDS Integers, Sequences

Num(v) == v.k \in {"int", "float"}
AtLeast(v, b) == Num(v) /\ v.n >= 1000 * b
StrIn(v, S) == v.k = "str" /\ v.s \in S
NbFixed(v) == v.k = "int" /\ v.n >= 2000          \* required, at least 2
NbNone(v)  == v.k = "none"                        \* must not be given

Valid(fn, v) ==
  CASE fn = "clustering_factory.algorithm" ->
         StrIn(v, {"affinity_propagation", "dbscan", "hierarchical", "kmeans", "mpckmeans", "spectral"})
    [] fn = "sampling_factory.algorithm" ->
         StrIn(v, {"random", "random_in_same_cluster", "farthest_in_same_cluster", "closest_in_different_clusters"})
    [] fn = "managing_factory.manager" -> StrIn(v, {"binary"})
    [] fn = "kmeans.model" -> StrIn(v, {"COP"})
    [] fn = "kmeans.max_iteration" -> AtLeast(v, 1)
    [] fn = "kmeans.tolerance" -> AtLeast(v, 0)
    [] fn = "kmeans.nb_clusters" -> NbFixed(v)
    [] fn = "hierarchical.linkage" -> StrIn(v, {"ward", "average", "complete", "single"})
    [] fn = "hierarchical.nb_clusters" -> NbFixed(v)
    [] fn = "hierarchical.cut_before_clustering" -> FALSE
    [] fn = "spectral.model" -> StrIn(v, {"SPEC"})
    [] fn = "spectral.nb_components" -> v.k = "none" \/ AtLeast(v, 2)
    [] fn = "spectral.nb_clusters" -> NbFixed(v)
    [] fn = "mpckmeans.model" -> StrIn(v, {"MPC"})
    [] fn = "mpckmeans.max_iteration" -> AtLeast(v, 1)
    [] fn = "mpckmeans.w" -> AtLeast(v, 0)
    [] fn = "mpckmeans.nb_clusters" -> NbFixed(v)
    [] fn = "dbscan.eps" -> Num(v) /\ v.n > 0
    [] fn = "dbscan.min_samples" -> AtLeast(v, 1)
    [] fn = "dbscan.nb_clusters" -> NbNone(v)
    [] fn = "affinity_propagation.max_iteration" -> AtLeast(v, 1)
    [] fn = "affinity_propagation.convergence_iteration" -> AtLeast(v, 1)
    [] fn = "affinity_propagation.nb_clusters" -> NbNone(v)
    [] fn = "cluster.constraints_manager" -> v.k = "manager"
    [] fn = "cluster.vectors" -> v.k = "dict"
    [] fn = "sampler.clusters_restriction" -> v.k = "none" \/ StrIn(v, {"same_cluster", "different_clusters"})
    [] fn = "sampler.distance_restriction" -> v.k = "none" \/ StrIn(v, {"closest_neighbors", "farthest_neighbors"})
    [] fn = "sampler.without_added_constraints" -> v.k = "bool"
    [] fn = "sampler.without_inferred_constraints" -> v.k = "bool"
    [] fn = "sample.constraints_manager" -> v.k = "manager"
    [] fn = "sample.nb_to_select" -> v.k = "int" /\ v.n >= 0
    [] fn = "sample.clustering_result" -> v.k = "dict"
    [] fn \in {"sample.clustering_result_unused", "sample.vectors_unused"} -> TRUE
    [] fn = "hierarchical.cluster_node" -> StrIn(v, {"members", "children"})
    [] fn = "sample.vectors" -> v.k = "dict"
    [] fn = "vectorize.vectorizer_type" -> StrIn(v, {"tfidf", "spacy"})
    [] fn = "vectorize.spacy_language_model" -> StrIn(v, {"installed"})
    [] fn = "preprocess.spacy_language_model" -> StrIn(v, {"installed"})
    [] fn = "manager.constraint_type" -> StrIn(v, {"MUST_LINK", "CANNOT_LINK"})
    [] fn = "manager.conflict_type" -> StrIn(v, {"MUST_LINK", "CANNOT_LINK"})
=============================================================================
