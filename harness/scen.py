"""Replay of every scenario of spec/MCScenarios.tla and spec/MCSampling.tla into the samplers and algorithms."""
import json, multiprocessing as mp, os, random, sys

import rec as R
import clu
from clu import CSession, DIST, RESTR, alg_config, universe, domain, hier_extras, unit_for, well_posed

_cache = {}


def load(path):
    if path not in _cache:
        _cache[path] = [json.loads(x) for x in open(path)]
    return _cache[path]


def vectors_of(rng, alg, n, style, prop=None):
    if prop == "C32":
        return clu.distinct_vec(rng, n, *rng.choice([(1, 15), (2, 5)]))
    if prop == "C35":
        return [[rng.randint(0, 100) for _ in range(rng.choice([1, 1]))] for _ in range(n)]
    if alg == "mpckmeans":
        return clu.distinct_vec(rng, n, 2, 15)
    if alg == "spectral":
        return clu.distinct_vec(rng, n, 2, 20)
    k = 8 if alg == "dbscan" else 1
    v = {"line": [[k * i * i, 0] for i in range(n)],
         "even": [[k * i, 0] for i in range(n)],
         "pairs": [[k * (i // 2), 0] for i in range(n)],
         "same": [[k, 0] for _ in range(n)],
         "plane": [[k * ((i * 5) % 7), k * ((i * 3) % 4)] for i in range(n)],
         "any": [[k * rng.randint(0, 3), k * rng.randint(0, 3)] for _ in range(n)]}[style]
    v = [list(x) for x in v]
    if style != "line" or rng.random() < 0.5:
        rng.shuffle(v)
    return v


STYLES = ["line", "even", "pairs", "same", "plane", "any"]


def realise(rng, sc):
    """An annotation list that leads to the scenario: random spanning chains, random members, random order."""
    grp = {}
    for x, r in enumerate(sc["rep"], 1):
        grp.setdefault(r, []).append(x)
    out = []
    for g in grp.values():
        g = list(g)
        rng.shuffle(g)
        for i in range(1, len(g)):
            out.append((g[i], rng.choice(g[:i]), 1))
    for a in sc["A"]:
        if a[2] == 2:
            out.append((rng.choice(grp[sc["rep"][a[0] - 1]]), rng.choice(grp[sc["rep"][a[1] - 1]]), 2))
    rng.shuffle(out)
    return [(y, x, t) if rng.random() < 0.5 else (x, y, t) for x, y, t in out]


def begin(rec, rng, prop, sc, alg, style):
    n = sc["n"]
    vec = vectors_of(rng, alg, n, style, prop)
    s = CSession(rec, rng, universe(rng, n), vec, {"kind": "scenario %s %s" % (prop, alg), "scenario": sc, "style": style}, 1 if prop == "C35" else unit_for(alg, rng))
    ranks = list(range(1, n + 1))
    rng.shuffle(ranks)
    s.build(1, ranks, realise(rng, sc), detours=rng.random() < 0.3)
    return s


def scenario_session(rec, rng, prop, opts):
    scs = load(opts["scenarios"])
    i = opts["shard"] + opts["shards"] * opts["index"]
    sc = scs[i % len(scs)]
    rot = i // len(scs) + i
    style = STYLES[rot % len(STYLES)]
    n = sc["n"]
    algs = {"C14": clu.ALGS, "C15": ["kmeans", "hierarchical"], "C16": ["affinity_propagation", "dbscan"], "C17": ["hierarchical"],
            "C18": ["hierarchical", "mpckmeans", "kmeans", "spectral"], "C19": ["kmeans"], "C20": clu.ALGS, "C26": ["dbscan"], "C34": ["dbscan"], "C28": ["affinity_propagation"], "C32": ["mpckmeans"], "C35": ["affinity_propagation"]}[prop]
    for alg in algs:
        if prop == "C20" and rng.random() < 0.5:
            continue
        s = begin(rec, rng, prop, sc, alg, style)
        ranks = s.order[1]
        mvec = [s.vec[r - 1] for r in ranks]
        must = domain(alg, n, mvec, s)
        seed = rng.choice([0, 1, 2, 42])
        if prop == "C20":
            if alg == "spectral" and not (n >= 3 and well_posed(s, 1)):
                continue
            par, nb, seed = alg_config(rng, alg, n, prop)
            clu.repro(s, rng, alg, par, nb, seed, must, hier_extras(s, 1, par, False) if alg == "hierarchical" else None)
        elif prop == "C32":
            clu.mpc_rounds(s, rng, n, [2, 3, 3, 4])
        elif prop == "C35":
            clu.ap_rounds(s, rng, True, 2)
            clu.ap_rounds(s, rng, False, 2)
        elif alg == "kmeans" and prop == "C19":
            clu.kmeans_iterates(s, rng, n)
        elif alg == "kmeans":
            for nb in range(2, n + 1):
                for par in ({"max_iteration": 1}, {}):
                    s.cluster(1, alg, par, nb, rng.choice([0, 1, 2, 42]), must=must)
        elif alg == "hierarchical":
            for link in ("ward", "average", "complete", "single"):
                metric = prop == "C17"
                par = {"linkage": link}
                out, model, lab = s.cluster(1, alg, par, rng.randint(2, n + 1), seed, must=must, extras=hier_extras(s, 1, par, metric))
                if out == "ok" and prop in ("C15", "C18"):
                    for nb in range(2, n + 2):
                        for by in ("size", "iteration"):
                            s.cut(1, model, nb, by)
        elif alg == "dbscan":
            for eps in (0.5, 1.0, 2.0):
                for ms in (1, 2, 3):
                    s.cluster(1, alg, {"eps": eps, "min_samples": ms}, None, seed, must=must)
        elif alg == "affinity_propagation":
            for par in ({}, {"max_iteration": 1}, {"max_iteration": 20, "convergence_iteration": 2}):
                s.cluster(1, alg, par, None, seed, must=must)
        else:
            for nb in range(2, n + 1):
                s.cluster(1, alg, {}, nb, seed, must=must)


# ---------------------------------------------------------------- sampling
NAMESETS = [["a", "b", "c", "d", "e"], ["10", "2", "9", "A", "é"], ["", " ", "B", "名", "😀"]]


def _sampling_chunk(args):
    prop, lines, seed = args
    from cognitivefactory.interactive_clustering.constraints.binary import BinaryConstraintsManager
    from cognitivefactory.interactive_clustering.sampling.clusters_based import ClustersBasedConstraintsSampling
    bad, n_calls = [], 0
    rng = random.Random("%s/%s/%s" % (seed, prop, lines[0] if lines else ""))
    for x in lines:
        o = json.loads(x[1:])
        n = len(o["lab"])
        nm = sorted(rng.choice(NAMESETS)[:n])
        order = list(nm)
        rng.shuffle(order)
        mgr = BinaryConstraintsManager(list_of_data_IDs=order)
        ann = [tuple(a) for a in o["A"]]
        rng.shuffle(ann)
        for a, b, t in ann:
            if rng.random() < 0.5:
                a, b = b, a
            mgr.add_constraint(data_ID1=nm[a - 1], data_ID2=nm[b - 1], constraint_type=R.TYPES[t])
        lab = {k: o["lab"][nm.index(k)] for k in order}
        vec = clu.gen_vec(rng, n, 2)
        vs = clu.to_vectors(nm, vec)
        dmap = {(i + 1, j + 1): sum((p - q) ** 2 for p, q in zip(vec[i], vec[j])) for i in range(n) for j in range(n)}
        for r in range(3):
            for op in range(4):
                wa, wi = op < 2, op % 2 == 0
                want = {tuple(p) for p in o["e"][r][op]}
                dist = rng.randrange(3)
                for nb in {n * n, len(want), rng.randint(0, max(0, len(want)))}:
                    sd = rng.choice([None, 0, 3])
                    s = ClustersBasedConstraintsSampling(random_seed=sd, clusters_restriction=RESTR[r], distance_restriction=DIST[dist],
                                                         without_added_constraints=wa, without_inferred_constraints=wi)
                    kw = dict(constraints_manager=mgr, nb_to_select=nb, clustering_result=lab if r else None, vectors=vs if dist else None)
                    out, v = R.call(s.sample, **kw)
                    n_calls += 1
                    info = {"state": o["A"], "names": nm, "lab": o["lab"], "vec": vec, "restr": r, "dist": dist, "wa": wa, "wi": wi, "nb": nb, "seed": sd,
                            "got": repr(v)[:300], "eligible": sorted(want)}
                    if out != "ok":
                        bad.append(("C11.outcome", info))
                        continue
                    try:
                        got = [(nm.index(a) + 1, nm.index(b) + 1) for a, b in v]
                    except Exception:
                        bad.append(("C11.eligible", info))
                        continue
                    if not set(got) <= want:
                        bad.append(("C11.eligible", info))
                    if len(set(got)) != len(got):
                        bad.append(("C11.distinct", info))
                    if len(got) != min(nb, len(want)):
                        bad.append(("C11.size", info))
                    if dist and set(got) <= want:
                        ds = [dmap[p] for p in got]
                        rest = [dmap[p] for p in want - set(got)]
                        if ds != sorted(ds, reverse=dist == 2):
                            bad.append(("C12.sorted", info))
                        if ds and rest and (max(ds) > min(rest) if dist == 1 else min(ds) < max(rest)):
                            bad.append(("C12.extreme", info))
                    if sd is not None and prop == "C13":
                        random.seed(rng.random())
                        s2 = ClustersBasedConstraintsSampling(random_seed=sd, clusters_restriction=RESTR[r], distance_restriction=DIST[dist],
                                                              without_added_constraints=wa, without_inferred_constraints=wi)
                        if R.call(s2.sample, **kw)[1] != v or R.call(s.sample, **kw)[1] != v:
                            bad.append(("C13.reproducible", info))
        if len(bad) > 50:
            break
    return bad, n_calls


def replay_sampling(run, lines):
    lines = [x for x in lines if x.startswith("E{")]
    size = 150
    jobs = [(run.prop, lines[i:i + size], run.seed) for i in range(0, len(lines), size)]
    with mp.get_context("fork").Pool(8) as pool:
        for bad, n in pool.imap_unordered(guard, jobs, chunksize=1):
            run.cov["replayed_transitions"] += n
            for clause, info in bad:
                run.violate(clause, json.dumps(info, ensure_ascii=True), [info])


def guard(job):
    import traceback
    from check import in_repo
    try:
        return _sampling_chunk(job)
    except Exception:
        et, ev, tb = sys.exc_info()
        if in_repo(tb):
            return [("ANY.crash", {"error": "".join(traceback.format_exception(et, ev, tb))[-800:]})], 0
        raise


def scenarios(run, sizes):
    """TLC enumerates the scenarios; returns the path of a file with all of them."""
    import tlc
    path = os.path.join(run.work, "scenarios-%s.json" % "".join(map(str, sizes)))
    n = 0
    with open(path, "w") as f:
        for k in sizes:
            r = tlc.run("MCScenarios", "MCScenarios%d.cfg" % k, run.work)
            run.model(r)
            for x in r["lines"]:
                if x.startswith("K{"):
                    f.write(x[1:] + "\n")
                    n += 1
    run.cov["scenarios_replayed"] = run.cov.get("scenarios_replayed", 0) + n
    return path, n
