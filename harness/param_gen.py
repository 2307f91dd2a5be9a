"""Parameter domains, at and around every documented bound; what the factories build (C22)."""
import re

import rec as R
import clu
from clu import ALGS, distinct_vec, gen_anns, to_vectors

BIG = 10 ** 6


def ab(v, kind=None, s=None):
    """Abstraction of a value for Params.tla."""
    k = kind
    if k is None:
        k = {type(None): "none", bool: "bool", int: "int", float: "float", str: "str", list: "list", dict: "dict",
             tuple: "list", set: "list"}.get(type(v), "other")
    n = 0
    if k in ("int", "float"):
        n = int(max(-BIG, min(BIG, v)) * 1000)
        if k == "float" and n == 0 and v != 0:      # tiny values keep their sign
            n = 1 if v > 0 else -1
    return {"k": k, "n": n, "s": s if s is not None else (v if k == "str" else "")}


NAMES = {"clustering_factory.algorithm": ["KMeans", "kmeans ", "", "unknown", None, "COP", "agglomerative", "mpc", "kmeans", "hierarchical",
                                          "spectral", "mpckmeans", "affinity_propagation", "dbscan", "DBSCAN", "affinitypropagation"],
         "sampling_factory.algorithm": ["random", "random_in_same_cluster", "farthest_in_same_cluster", "closest_in_different_clusters",
                                        "Random", "", None, "closest_in_same_cluster", "farthest_in_different_clusters", "farthest",
                                        "random_in_different_clusters", "unknown", "closest"],
         "managing_factory.manager": ["binary", "Binary", "", None, "unknown", "fuzzy"],
         "kmeans.model": ["COP", "cop", "", None, "MPC", "SPEC", "COP-kmeans"],
         "spectral.model": ["SPEC", "spec", "", None, "CCSR", "COP"],
         "mpckmeans.model": ["MPC", "mpc", "", None, "COP", "MPCKmeans"],
         "hierarchical.linkage": ["ward", "average", "complete", "single", "Ward", "", None, "median", "centroid", "weighted"],
         "sampler.clusters_restriction": [None, "same_cluster", "different_clusters", "", "same", "different", "SAME_CLUSTER", "same_clusters",
                                          0, False, "random"],
         "sampler.distance_restriction": [None, "closest_neighbors", "farthest_neighbors", "", "closest", "farthest", "nearest_neighbors",
                                          0, False, "CLOSEST_NEIGHBORS"],
         "sampler.without_added_constraints": [True, False, None, 0, 1, "True", "", 1.0],
         "sampler.without_inferred_constraints": [True, False, None, 0, 1, "False", "", 0.0],
         "kmeans.max_iteration": [1, 2, 150, 100000, 0, -1, -150],
         "kmeans.tolerance": [0, 0.0, 1e-9, 1e-4, 1, 100.0, -1e-9, -0.5, -1],
         "spectral.nb_components": [None, 2, 3, 50, 1, 0, -1, -2],
         "mpckmeans.max_iteration": [1, 2, 150, 0, -1, -10],
         "mpckmeans.w": [0, 0.0, 1e-9, 0.5, 1, 100, -1e-9, -0.5, -1],
         "dbscan.eps": [1e-9, 0.5, 1, 1.5, 1000, 0, 0.0, -1e-9, -0.5, -1],
         "dbscan.min_samples": [1, 2, 5, 1000, 0, -1, -5],
         "affinity_propagation.max_iteration": [1, 2, 150, 0, -1],
         "affinity_propagation.convergence_iteration": [1, 2, 10, 150, 0, -1]}
CTOR = {"kmeans", "spectral", "mpckmeans", "hierarchical", "dbscan", "affinity_propagation"}
GOOD = {"kmeans": {"max_iteration": [1, 7], "tolerance": [0.0, 0.25], "random_seed": [None, 0, 42], "model": ["COP"]},
        "hierarchical": {"linkage": ["ward", "average", "complete", "single"], "random_seed": [None, 0, 42]},
        "spectral": {"nb_components": [None, 2, 5], "random_seed": [None, 0, 42], "model": ["SPEC"]},
        "mpckmeans": {"max_iteration": [1, 9], "w": [0, 0.5, 3], "random_seed": [None, 0, 42], "model": ["MPC"]},
        "dbscan": {"eps": [0.25, 2.0], "min_samples": [1, 3], "random_seed": [None, 0, 42]},
        "affinity_propagation": {"max_iteration": [3, 50], "convergence_iteration": [2, 30], "random_seed": [None, 0, 42],
                                 "absolute_must_links": [True, False]}}
SAMPLER_GOOD = {"random_seed": [None, 0, 42], "without_added_constraints": [True, False], "without_inferred_constraints": [True, False]}


DEFAULTS = {"kmeans": {"model": "COP", "max_iteration": 150, "tolerance": 1e-4, "random_seed": None},
            "hierarchical": {"linkage": "ward", "random_seed": None},
            "spectral": {"model": "SPEC", "nb_components": None, "random_seed": None},
            "mpckmeans": {"model": "MPC", "max_iteration": 150, "random_seed": None},
            "dbscan": {"eps": 0.5, "min_samples": 5, "random_seed": None},
            "affinity_propagation": {"max_iteration": 150, "absolute_must_links": True, "random_seed": None}}


def classes():
    from cognitivefactory.interactive_clustering.clustering import (
        affinity_propagation, dbscan, hierarchical, kmeans, mpckmeans, spectral)
    return {"kmeans": kmeans.KMeansConstrainedClustering, "hierarchical": hierarchical.HierarchicalConstrainedClustering,
            "spectral": spectral.SpectralConstrainedClustering, "mpckmeans": mpckmeans.MPCKMeansConstrainedClustering,
            "affinity_propagation": affinity_propagation.AffinityPropagationConstrainedClustering,
            "dbscan": dbscan.DBScanConstrainedClustering}


def problem(rng):
    from cognitivefactory.interactive_clustering.constraints.binary import BinaryConstraintsManager
    n = rng.randint(4, 7)
    names = ["p%d" % i for i in range(n)]
    rng.shuffle(names)
    m = BinaryConstraintsManager(list_of_data_IDs=names)
    srt = sorted(names)
    while True:        # the groups' centres have to be distinct (MPC-kmeans)
        vec = distinct_vec(rng, n, 2, 12)
        if clu.centers_distinct(list(range(1, n + 1)), vec, [(srt.index(names[0]) + 1, srt.index(names[1]) + 1, 1)]):
            break
    m.add_constraint(data_ID1=names[0], data_ID2=names[1], constraint_type=rng.choice(["MUST_LINK", "CANNOT_LINK"]))
    if rng.random() < 0.5:
        m.add_constraint(data_ID1=names[2], data_ID2=names[3], constraint_type="CANNOT_LINK")
    return m, to_vectors(sorted(names), vec, 1), n, names


def build(fn, v, rng):
    """Call the constructor or factory of fn with the value v."""
    owner, par = fn.split(".")
    from cognitivefactory.interactive_clustering.sampling.clusters_based import ClustersBasedConstraintsSampling
    if owner in CTOR:
        if rng.random() < 0.5:
            return R.call(classes()[owner], **{par: v})
        from cognitivefactory.interactive_clustering.clustering.factory import clustering_factory
        return R.call(clustering_factory, algorithm=owner, **{par: v})
    if owner == "clustering_factory":
        from cognitivefactory.interactive_clustering.clustering.factory import clustering_factory
        return R.call(clustering_factory, algorithm=v)
    if owner == "sampling_factory":
        from cognitivefactory.interactive_clustering.sampling.factory import sampling_factory
        return R.call(sampling_factory, algorithm=v)
    if owner == "managing_factory":
        from cognitivefactory.interactive_clustering.constraints.factory import managing_factory
        return R.call(managing_factory, list_of_data_IDs=["a", "b"], manager=v)
    if owner == "sampler":
        return R.call(ClustersBasedConstraintsSampling, **{par: v})
    raise KeyError(fn)


def outcome(out):
    return out if out in ("ok", "ValueError") else "other:" + out


def param(rec, fn, v, out, abst=None):
    rec.emit(op="param", fn=fn, v=abst or ab(v), out=outcome(out), val=repr(v)[:60])


def sig(o):
    """Type and configuration of an object, whatever its attributes are called."""
    return (type(o).__module__, type(o).__qualname__, sorted((k, re.sub(r"0x[0-9a-fA-F]+", "0x", repr(x))) for k, x in vars(o).items()))


def combos(rng, good):
    return {k: rng.choice(vs) for k, vs in good.items() if rng.random() < 0.6}


class NotAManager:
    def get_list_of_managed_data_IDs(self):
        return ["a"]


def param_session(rec, rng, prop, opts):
    from cognitivefactory.interactive_clustering.clustering.factory import clustering_factory
    from cognitivefactory.interactive_clustering.clustering.hierarchical import Cluster
    from cognitivefactory.interactive_clustering.constraints.binary import BinaryConstraintsManager
    from cognitivefactory.interactive_clustering.constraints.factory import managing_factory
    from cognitivefactory.interactive_clustering.sampling.clusters_based import ClustersBasedConstraintsSampling
    from cognitivefactory.interactive_clustering.sampling.factory import sampling_factory
    from cognitivefactory.interactive_clustering.utils.preprocessing import preprocess
    from cognitivefactory.interactive_clustering.utils.vectorization import vectorize
    import text_gen
    rec.begin({"kind": "parameters"})
    cls = classes()
    part = (opts["shard"] + opts["index"]) % 4
    if part == 0:
        for fn, vals in NAMES.items():
            for v in vals:
                out, _ = build(fn, v, rng)
                param(rec, fn, v, out)
        for fn in [f for f, vs in NAMES.items() if any(isinstance(v, (int, float)) and not isinstance(v, bool) for v in vs) and "sampler" not in f]:
            for _ in range(3):
                v = rng.choice([rng.randint(-50, 400), rng.randint(1, 3)])
                out, _ = build(fn, v, rng)
                param(rec, fn, v, out)
    if part == 1:
        m, vs, n, names = problem(rng)
        for alg in ALGS:
            def mk():
                return cls[alg](**({"random_seed": 1}))
            nb0 = None if alg in ("dbscan", "affinity_propagation") else 2
            for nb in [None, 2, 3, n - 1, 1, 0, -1, -7]:
                out, _ = R.call(mk().cluster, constraints_manager=m, vectors=vs, nb_clusters=nb)
                param(rec, alg + ".nb_clusters", nb, out)
            for v, a in [(m, ab(None, "manager")), (None, None), ("manager", None), (NotAManager(), ab(None, "other")), ([], None), ({}, None),
                         (names, None), (BinaryConstraintsManager, ab(None, "other"))]:
                out, _ = R.call(mk().cluster, constraints_manager=v, vectors=vs, nb_clusters=nb0)
                param(rec, "cluster.constraints_manager", v, out, a)
            for v in [vs, None, [], list(vs.items()), "vectors", 3, list(vs.values())]:
                out, _ = R.call(mk().cluster, constraints_manager=m, vectors=v, nb_clusters=nb0)
                param(rec, "cluster.vectors", v, out, ab(v))
    if part == 2:
        m, vs, n, names = problem(rng)
        lab = {x: rng.randrange(2) for x in names}
        for restr in clu.RESTR.values():
            for dist in clu.DIST.values():
                def mk():
                    return ClustersBasedConstraintsSampling(random_seed=0, clusters_restriction=restr, distance_restriction=dist)
                base = dict(constraints_manager=m, nb_to_select=2, clustering_result=lab, vectors=vs)
                for v, a in [(m, ab(None, "manager")), (None, None), ("m", None), (NotAManager(), ab(None, "other")), (names, None), ({}, None)]:
                    out, _ = R.call(mk().sample, **dict(base, constraints_manager=v))
                    param(rec, "sample.constraints_manager", v, out, a)
                for v in [0, 1, 2, 25, 10 ** 6, -1, -5, 2.0, 1.5, None, "2", [2]]:
                    out, _ = R.call(mk().sample, **dict(base, nb_to_select=v))
                    param(rec, "sample.nb_to_select", v, out)
                for v in [lab, None, [], list(lab.items()), "x", 0]:
                    out, _ = R.call(mk().sample, **dict(base, clustering_result=v))
                    param(rec, "sample.clustering_result" + ("" if restr else "_unused"), v, out)
                for v in [vs, None, [], list(vs.items()), "x", 0]:
                    out, _ = R.call(mk().sample, **dict(base, vectors=v))
                    param(rec, "sample.vectors" + ("" if dist else "_unused"), v, out, ab(v))
        # manager calls
        for t in ["MUST_LINK", "CANNOT_LINK", "must_link", "cannot_link", "", None, "MAYBE_LINK", "MUST", "LINK", "MUST_LINK "]:
            mm = BinaryConstraintsManager(list_of_data_IDs=["a", "b", "c"])
            out, _ = R.call(mm.add_constraint, data_ID1="a", data_ID2="b", constraint_type=t)
            param(rec, "manager.constraint_type", t, out)
            out, _ = R.call(mm.get_list_of_involved_data_IDs_in_a_constraint_conflict, data_ID1="a", data_ID2="c", constraint_type=t)
            param(rec, "manager.conflict_type", t, out)
        # trees
        for link in ("ward", "average", "complete", "single"):
            h = cls["hierarchical"](linkage=link)
            for by in ("size", "iteration"):
                for nb in (2, 3):
                    out, _ = R.call(h.compute_predicted_clusters, nb_clusters=nb, by=by)
                    param(rec, "hierarchical.cut_before_clustering", nb, out)
        leaf = Cluster(vectors=vs, cluster_ID=0, clustering_iteration=0, members=names[:2])
        leaf2 = Cluster(vectors=vs, cluster_ID=1, clustering_iteration=0, members=names[2:])
        for what, kw in [("members", dict(members=list(names))), ("children", dict(children=[leaf, leaf2])), ("both", dict(members=list(names), children=[leaf, leaf2])),
                         ("neither", {}), ("both", dict(members=[], children=[leaf])), ("both", dict(members=list(names), children=[]))]:
            out, _ = R.call(Cluster, vectors=vs, cluster_ID=2, clustering_iteration=1, **kw)
            param(rec, "hierarchical.cluster_node", what, out)
        # texts
        texts = {"1": "bonjour le monde", "2": "bonjour la carte", "3": "carte bleue"}
        path = text_gen.spacy_model("vectors")
        for t in ["tfidf", "spacy", "TFIDF", "tf-idf", "", None, "unknown", "spacy "]:
            out, _ = R.call(vectorize, dict_of_texts=texts, vectorizer_type=t, spacy_language_model=path)
            param(rec, "vectorize.vectorizer_type", t, out)
        for f, fn, kw in ((vectorize, "vectorize", {"vectorizer_type": "spacy"}), (preprocess, "preprocess", {})):
            for v, a in [(path, "installed"), ("fr_core_news_not_there", None), ("unknown", None), ("/nonexistent/model", None)]:
                out, _ = R.call(f, dict_of_texts=texts, spacy_language_model=v, **kw)
                param(rec, fn + ".spacy_language_model", v, out, ab(v, "str", a or v))
    if part == 3:
        for alg in ALGS:
            for _ in range(6):
                kw = combos(rng, GOOD[alg])
                o1, a = R.call(clustering_factory, algorithm=alg, **kw)
                o2, b = R.call(cls[alg], **kw)
                rec.fact("C22.clustering_factory", o1 == o2 == "ok" and sig(a) == sig(b), alg=alg, kw=kw)
                if o1 == "ok":
                    rec.fact("C22.options_kept", isinstance(a, cls[alg]) and all(kept(a, k, v) for k, v in kw.items()), alg=alg, kw=kw)
        for alg, full in DEFAULTS.items():       # options left out take their documented defaults
            for kw in [full] + [{k: v for k, v in full.items() if rng.random() < 0.5} for _ in range(3)]:
                o1, a = R.call(cls[alg], **kw)
                o2, b = R.call(cls[alg])
                rec.fact("C22.defaults", o1 == o2 == "ok" and sig(a) == sig(b), alg=alg, kw=kw)
        o1, a = R.call(clustering_factory)
        rec.fact("C22.default_clustering", o1 == "ok" and type(a) is cls["kmeans"])
        for nm, (restr, dist) in clu.SAMPLER_NAMES.items():
            for _ in range(6):
                kw = combos(rng, SAMPLER_GOOD)
                o1, a = R.call(sampling_factory, algorithm=nm, **kw)
                o2, b = R.call(ClustersBasedConstraintsSampling, clusters_restriction=clu.RESTR[restr], distance_restriction=clu.DIST[dist], **kw)
                rec.fact("C22.sampling_factory", o1 == o2 == "ok" and sig(a) == sig(b), alg=nm, kw=kw)
        full = dict(clusters_restriction=None, distance_restriction=None, without_added_constraints=True, without_inferred_constraints=True, random_seed=None)
        for kw in [full] + [{k: v for k, v in full.items() if rng.random() < 0.5} for _ in range(3)]:
            o1, a = R.call(ClustersBasedConstraintsSampling, **kw)
            o2, b = R.call(ClustersBasedConstraintsSampling)
            rec.fact("C22.defaults", o1 == o2 == "ok" and sig(a) == sig(b), alg="sampling", kw=kw)
        ids = ["z", "a", "m"]
        o1, a = R.call(managing_factory, list_of_data_IDs=ids, manager="binary")
        rec.fact("C22.managing_factory", o1 == "ok" and type(a) is BinaryConstraintsManager and a.get_list_of_managed_data_IDs() == ["z", "a", "m"])
        o1, a = R.call(managing_factory, list_of_data_IDs=ids)
        rec.fact("C22.managing_factory", o1 == "ok" and type(a) is BinaryConstraintsManager and a.get_list_of_managed_data_IDs() == ["z", "a", "m"])


def kept(o, k, v):
    """An option is stored under its own name, when the object has such an attribute."""
    d = vars(o)
    if k not in d:
        return True
    if k == "random_seed" and v is None:
        return True
    return d[k] == v
