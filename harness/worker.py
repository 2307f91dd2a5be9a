"""Runs sampling / clustering jobs in another process (other hash seed)."""
import json, os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, "/repo/src")
import warnings  # noqa: E402

warnings.simplefilter("ignore")
import rec as R  # noqa: E402


def manager(d):
    from cognitivefactory.interactive_clustering.constraints.binary import BinaryConstraintsManager
    m = BinaryConstraintsManager(list_of_data_IDs=list(d["ids"]))
    for x, y, t in d["ann"]:
        m.add_constraint(data_ID1=x, data_ID2=y, constraint_type=R.TYPES[t])
    return m


def job(j):
    import clu
    vs = clu.to_vectors(j["names"], j["vec"], j["unit"]) if j.get("vecs", True) else None
    m = manager(j["mgr"])
    if j["kind"] == "sample":
        from cognitivefactory.interactive_clustering.sampling.clusters_based import ClustersBasedConstraintsSampling
        smp = ClustersBasedConstraintsSampling(random_seed=j["seed"] if j["seed"] >= 0 else None, clusters_restriction=j["restr"],
                                               distance_restriction=j["dist"], without_added_constraints=j["wa"],
                                               without_inferred_constraints=j["wi"])
        return {"out": "ok", "pairs": [list(p) for p in smp.sample(constraints_manager=m, nb_to_select=j["nb"],
                                                                   clustering_result=j["clu"], vectors=vs)]}
    model = clu.make_model(j["alg"], j["par"], j["seed"])
    v = model.cluster(constraints_manager=m, vectors=vs, nb_clusters=j["nb"])
    r = {"out": "ok", "labels": {str(k): int(x) for k, x in v.items()}}
    if j["alg"] == "dbscan":
        r["cnt"] = [int(model.number_of_regular_clusters), int(model.number_of_single_noise_point_clusters),
                    int(model.number_of_clusters)]
    return r


answers = os.fdopen(os.dup(1), "w")         # what the code prints goes elsewhere
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
for line in sys.stdin:
    out, v = R.call(job, json.loads(line))
    print(json.dumps(v if out == "ok" else {"out": out, "error": repr(v)[:300]}), file=answers, flush=True)
