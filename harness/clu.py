"""Sampling and clustering sessions (code -> specification)."""
import contextlib, copy, io, json, math, os, random, subprocess, sys
from fractions import Fraction

import numpy as np
from scipy.sparse import csr_matrix

import rec as R
from rec import Recorder, Session, universe

HERE = os.path.dirname(os.path.abspath(__file__))
RESTR = {0: None, 1: "same_cluster", 2: "different_clusters"}
DIST = {0: None, 1: "closest_neighbors", 2: "farthest_neighbors"}
SAMPLER_NAMES = {"random": (0, 0), "random_in_same_cluster": (1, 0), "farthest_in_same_cluster": (1, 2),
                 "closest_in_different_clusters": (2, 1)}
ALGS = ["kmeans", "hierarchical", "spectral", "mpckmeans", "affinity_propagation", "dbscan"]
SCALE = 720720


DEFAULTS = {("hierarchical", "linkage"): "ward", ("dbscan", "eps"): 0.5, ("dbscan", "min_samples"): 5, ("affinity_propagation", "absolute_must_links"): True,
            ("kmeans", "max_iteration"): 150}


# ---------------------------------------------------------------- building
def make_model(alg, par, seed, direct=False):
    kw = {k: v for k, v in par.items() if DEFAULTS.get((alg, k)) != v or random.random() < 0.5}      # or left out
    if seed is not None and seed >= 0:
        kw["random_seed"] = seed
    if direct:
        from cognitivefactory.interactive_clustering.clustering import (
            affinity_propagation, dbscan, hierarchical, kmeans, mpckmeans, spectral)
        cls = {"kmeans": kmeans.KMeansConstrainedClustering,
               "hierarchical": hierarchical.HierarchicalConstrainedClustering,
               "spectral": spectral.SpectralConstrainedClustering,
               "mpckmeans": mpckmeans.MPCKMeansConstrainedClustering,
               "affinity_propagation": affinity_propagation.AffinityPropagationConstrainedClustering,
               "dbscan": dbscan.DBScanConstrainedClustering}[alg]
        return cls(**kw)
    from cognitivefactory.interactive_clustering.clustering.factory import clustering_factory
    return clustering_factory(algorithm=alg, **kw)


def to_vectors(names, vec, unit=1, order=None, extra=False):
    d = {}
    stored = random.random() < 0.1                   # zeros stored like other values
    for i in (order or range(len(names))):
        v = [c / unit for c in vec[i]]
        d[names[i]] = csr_matrix((v, range(len(v)), [0, len(v)]), shape=(1, len(v)), dtype=float) if stored else csr_matrix([v], dtype=float)
    if extra:
        d["zz unmanaged"] = csr_matrix([[97.0] * len(vec[0])])
        d["  unmanaged"] = csr_matrix([[-31.0] * len(vec[0])])
    return d


def snapshot(vectors):
    return [(k, v.shape, v.toarray().tolist()) for k, v in vectors.items()]


class Worker:
    """A separate process with another hash seed, answering the same jobs."""
    _w = {}

    @classmethod
    def get(cls, hashseed):
        key = (os.getpid(), hashseed)
        if key not in cls._w:
            env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
            cls._w[key] = subprocess.Popen([sys.executable, "-W", "ignore", os.path.join(HERE, "worker.py")],
                                           stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env)
        return cls._w[key]

    @classmethod
    def ask(cls, job, hashseed=4242):
        p = cls.get(hashseed)
        p.stdin.write(json.dumps(job) + "\n")
        p.stdin.flush()
        line = p.stdout.readline()
        if not line:
            raise RuntimeError("worker died")
        return json.loads(line)

    @classmethod
    def close(cls):
        for (pid, _), p in list(cls._w.items()):
            if pid == os.getpid():
                try:
                    p.stdin.close()
                    p.wait(timeout=10)
                except Exception:
                    p.kill()
        cls._w.clear()


def perturb(rng):
    random.seed(rng.random())
    for _ in range(rng.randrange(5)):
        random.random()
    np.random.seed(rng.randrange(2 ** 31))


# ----------------------------------------------------------------- session
class CSession(Session):
    """A session with one vector per item of the universe."""

    def __init__(self, rec, rng, names, vec, desc=None, unit=1, cont=False):
        self.vec, self.unit, self.tags = vec, unit, {}
        super().__init__(rec, rng, names, dict(desc or {}, vec=vec, unit=unit), cont)
        self.bad_lab = [0] * len(self.names)

    def vectors(self, order=None, extra=False):
        return to_vectors(self.names, self.vec, self.unit, order, extra)

    def state(self, m):
        """Serialised manager content of handle m, as the driver knows it (for the worker)."""
        return {"ids": [self.nm(r) for r in self.order[m]],
                "ann": [[self.nm(x), self.nm(y), t] for (x, y, t) in self.ann[m]]}

    def build(self, m, ranks, anns, detours=True):
        """Create manager m over ranks with the annotations of anns that are accepted."""
        rng = self.rng
        self.order = getattr(self, "order", {})
        self.ann = getattr(self, "ann", {})
        self.new(m, ranks)
        kept = []
        for (x, y, t) in anns:
            if detours and rng.random() < 0.05:
                z = rng.choice(ranks)
                if z not in (x, y):
                    if self.addc(m, x, z, rng.choice([1, 2])) == "ok" and not any({a, b} == {x, z} for a, b, _ in kept):
                        self.delc(m, x, z)
            if self.addc(m, x, y, t) == "ok" and x != y and not any({a, b} == {x, y} for a, b, _ in kept):
                kept.append((x, y, t))
        self.order[m], self.ann[m] = list(ranks), kept

    def rebuild(self, m, d, shuffle=True):
        """Another manager with the same abstract state, from the annotations in another order."""
        a = list(self.ann[m])
        if shuffle:
            self.rng.shuffle(a)
            a = [(y, x, t) if self.rng.random() < 0.5 else (x, y, t) for x, y, t in a]
        self.build(d, self.order[m], a, detours=True)
        self.ann[d] = list(self.ann[m])

    def step(self, m):
        """One more annotation, or one taken back."""
        rng, ann = self.rng, self.ann[m]
        if ann and rng.random() < 0.4:
            x, y, t = ann.pop(rng.randrange(len(ann)))
            self.delc(m, x, y)
            return
        x, y = rng.sample(self.order[m], 2)
        t = rng.choice([1, 2])
        if self.addc(m, x, y, t) == "ok" and not any({a, b} == {x, y} for a, b, _ in ann):
            ann.append((x, y, t))

    # -- sampling -----------------------------------------------------------
    def sample(self, m, restr, dist, wa, wi, nb, lab, seed, sampler=None, vectors=None, how="", truth=None, inproc=True):
        from cognitivefactory.interactive_clustering.sampling.clusters_based import ClustersBasedConstraintsSampling

        clu = None
        if restr or how == "give_all":
            ks = list(self.order[m])
            if self.rng.random() < 0.5:
                self.rng.shuffle(ks)
            clu = {self.nm(r): lab[r - 1] for r in ks}
            if inproc and self.rng.random() < 0.3:        # a clustering of more items than are managed now
                clu.update({self.nm(r): lab[r - 1] for r in range(1, len(self.names) + 1) if r not in ks})
                clu["zz unmanaged"] = 0
        vs = vectors if vectors is not None else (self.vectors() if dist or how == "give_all" else None)
        if inproc:
            if sampler is None:
                kw = dict(clusters_restriction=RESTR[restr], distance_restriction=DIST[dist],
                          without_added_constraints=wa, without_inferred_constraints=wi)
                kw = {k: v for k, v in kw.items() if v not in (None, True) or self.rng.random() < 0.5}      # the default, given or not
                sampler = ClustersBasedConstraintsSampling(random_seed=seed if seed >= 0 else None, **kw)
            before = (copy.deepcopy(clu), snapshot(vs) if vs else None)
            out, v = R.call(sampler.sample, constraints_manager=self.h[m], nb_to_select=nb, clustering_result=clu, vectors=vs)
            same = before == (clu, snapshot(vs) if vs else None)
        else:
            r = Worker.ask({"kind": "sample", "mgr": self.state(m), "restr": RESTR[restr], "dist": DIST[dist], "wa": wa,
                            "wi": wi, "nb": nb, "seed": seed, "clu": clu, "names": self.names, "vec": self.vec,
                            "unit": self.unit, "vecs": vs is not None})
            out, v, same = r["out"], r.get("pairs"), True
        pairs = []
        if out == "ok":
            try:
                pairs = [[self.rk(a), self.rk(b)] for a, b in v]
            except Exception:
                pairs = [[0, 0]]
        ev = dict(op="sample", m=m, restr=restr, dist=dist, wa=wa, wi=wi, nb=nb, lab=lab, vec=self.vec, seed=seed, out=out,
                  pairs=pairs)
        ev.update(self.tags)
        if truth is not None:
            ev["truth"] = truth
        self.rec.emit(**ev)
        if not same:
            self.rec.emit(op="inputs", tag="C13", same=False)
        if out == "ok" and inproc and isinstance(v, list) and self.rng.random() < 0.3:
            v.reverse()      # the caller may do what it wants with the result
            v.append(("intruder", "intruder"))
        return v if out == "ok" else None, pairs

    # -- clustering ---------------------------------------------------------
    def labels(self, m, v):
        """(keys, lab, ints) of a returned dict."""
        keys, lab, ints = [], list(self.bad_lab), True
        try:
            for k, x in v.items():
                r = self.rk(str(k) if isinstance(k, str) else k)
                keys.append(r)
                if isinstance(x, bool) or not isinstance(x, (int, np.integer)):
                    ints = False
                    continue
                if r:
                    lab[r - 1] = int(x)
        except Exception:
            return [0], lab, False
        return keys, lab, ints

    def cluster(self, m, alg, par, nb, seed, model=None, vectors=None, mode="in", must=True, extras=None, before_model=None):
        """Run and emit; returns (outcome, model, lab)."""
        if mode == "worker":
            r = Worker.ask({"kind": "cluster", "mgr": self.state(m), "alg": alg, "par": par, "nb": nb, "seed": seed,
                            "names": self.names, "vec": self.vec, "unit": self.unit})
            out, v, same = r["out"], r.get("labels"), True
        else:
            if model is None:
                model = make_model(alg, par, seed, direct=self.rng.random() < 0.5)
            vs = vectors if vectors is not None else self.vectors()
            before = snapshot(vs)
            if self.rng.random() < 0.12:
                with contextlib.redirect_stdout(io.StringIO()):
                    out, v = R.call(model.cluster, constraints_manager=self.h[m], vectors=vs, nb_clusters=nb, verbose=True)
            else:
                out, v = R.call(model.cluster, constraints_manager=self.h[m], vectors=vs, nb_clusters=nb)
            same = before == snapshot(vs)
        keys, lab, ints = self.labels(m, v) if out == "ok" else ([], list(self.bad_lab), True)
        if out != "ok" and not must:
            return out, model, lab
        ev = dict(op="cluster", m=m, alg=alg, par=json.dumps(par, sort_keys=True), nb=nb if nb is not None else 0, seed=seed,
                  vec=self.vec, keys=keys, lab=lab, ints=ints, out=out)
        ev.update(self.tags)
        if out != "ok":
            ev["error"] = repr(v)[:300]
        if alg == "dbscan":
            ev["eps2"] = round(par.get("eps", 0.5) * self.unit) ** 2
            ev["ms"] = par.get("min_samples", 5)
            ev["epsle1"] = par.get("eps", 0.5) <= 1
            if len(self.order[m]) <= 60:
                ev["epssize"] = math.ceil(par.get("eps", 0.5))
            ev["cnt"] = [-1, -1, -1]
            if mode == "worker":
                ev["cnt"] = r.get("cnt", ev["cnt"])
            elif out == "ok":
                ev["cnt"] = [int(model.number_of_regular_clusters), int(model.number_of_single_noise_point_clusters),
                             int(model.number_of_clusters)]
        if alg == "affinity_propagation":
            ev["aml"] = par.get("absolute_must_links", True)
            if len(self.order[m]) <= 60:
                ev["exemplars"] = True
        if extras and out == "ok":
            ev.update(extras(model, lab) or {})
        self.rec.emit(**ev)
        if not same:
            self.rec.emit(op="inputs", tag="C20", same=False)
        return out, model, lab

    # -- the tree of a hierarchical model ------------------------------------
    def tree(self, model):
        """nodes (records for Agglomeration.tla) read from the node objects, and whether to_dict agrees."""
        nodes, ok = [], True
        try:
            def walk(c):
                nodes.append({"id": int(c.cluster_ID), "it": int(c.clustering_iteration),
                              "ch": [int(x.cluster_ID) for x in c.children], "mem": [self.rk(x) for x in c.members],
                              "depth": int(c.cluster_inverse_depth)})
                if len(nodes) > 5000:
                    raise RuntimeError("cyclic")
                for x in c.children:
                    walk(x)

            def same(c, d):
                return (d["cluster_ID"] == c.cluster_ID and d["clustering_iteration"] == c.clustering_iteration
                        and d["cluster_inverse_depth"] == c.cluster_inverse_depth
                        and list(d["members"]) == list(c.members) and len(d["children"]) == len(c.children)
                        and all(same(x, y) for x, y in zip(c.children, d["children"])))
            walk(model.clustering_root)
            d = model.clustering_root.to_dict()
            ok = same(model.clustering_root, d) and json.loads(json.dumps(d)) == d
        except Exception:
            return [{"id": 0, "it": 0, "ch": [0], "mem": [], "depth": 0}], False
        return nodes, ok

    def cut(self, m, model, nb, by):
        nodes, ok = self.tree(model)
        out, v = R.call(model.compute_predicted_clusters, nb_clusters=nb, **({"by": by} if by != "size" or self.rng.random() < 0.5 else {}))
        keys, lab, ints = self.labels(m, v) if out == "ok" else ([], list(self.bad_lab), True)
        self.rec.emit(op="cut", m=m, nb=nb, by=by, nodes=nodes, keys=keys, lab=lab, out=out)


# --------------------------------------------------------------- generators
def gen_vec(rng, n, dims=None, style=None):
    d = dims or rng.choice([1, 2, 2, 3, 7] * 4 + [40])
    style = style or rng.choice(["grid", "grid", "wide", "blobs", "line", "dups"])
    if style == "grid":
        v = [[rng.randint(0, 3) for _ in range(d)] for _ in range(n)]
    elif style == "fine":
        v = [[rng.randint(-2000, 2000) for _ in range(d)] for _ in range(n)]
    elif style == "offset":                # far from the origin: differences small with respect to the values
        v = [[10 ** 7 + rng.randint(-30, 30) for _ in range(min(d, 2))] for _ in range(n)]
    elif style == "wide":
        v = [[rng.randint(-20, 20) for _ in range(d)] for _ in range(n)]
    elif style == "blobs":
        c = [[rng.randint(-12, 12) for _ in range(d)] for _ in range(rng.randint(2, 4))]
        v = [[x + rng.randint(-1, 1) for x in rng.choice(c)] for _ in range(n)]
    elif style == "line":
        v = [[i * 2] + [0] * (d - 1) for i in range(n)]
        rng.shuffle(v)
    else:
        base = [[rng.randint(0, 5) for _ in range(d)] for _ in range(max(1, n // 2))]
        v = [list(rng.choice(base)) for _ in range(n)]
    return v


def distinct_vec(rng, n, d=2, hi=6):
    seen = []
    while (hi + 1) ** d < 2 * n:
        hi += 1
    while len(seen) < n:
        v = [rng.randint(0, hi) for _ in range(d)]
        if v not in seen:
            seen.append(v)
    return seen


def gen_anns(rng, ranks, dens=None, k=None, noise=0.05, style=None):
    """Annotations: mostly consistent with a random partition."""
    n = len(ranks)
    style = style or rng.choice(["truth", "truth", "truth", "mlonly", "clonly", "cldense", "none"])
    k = k or rng.choice([1, 2, 2, 3, 3, 4, n])
    truth = {r: rng.randrange(k) for r in ranks}
    if style == "cldense":
        truth = {r: i for i, r in enumerate(ranks)}
    pairs = [(x, y) for i, x in enumerate(ranks) for y in ranks[:i]]
    rng.shuffle(pairs)
    if style == "none":
        return []
    if style == "sparse":
        dens = 0.03
    dens = dens if dens is not None else rng.choice([0.1, 0.3, 0.5, 0.8, 1.0])
    out = []
    for x, y in pairs[: int(round(dens * min(len(pairs), 3 * n)))]:
        if rng.random() < 0.5:
            x, y = y, x
        t = 1 if truth[x] == truth[y] else 2
        if style == "mlonly" and t == 2 or style == "clonly" and t == 1:
            continue
        if rng.random() < noise:
            t = 3 - t
        out.append((x, y, t))
    return out


def start(rec, rng, n, vec, kind, unit=1, partial=True, anns=None, annstyle=None, universe_n=None):
    """Session with manager 1 over a random subset/order of the universe."""
    N = len(vec)
    names = universe(rng, N)
    s = CSession(rec, rng, names, vec, {"kind": kind}, unit)
    ranks = list(range(1, N + 1))
    rng.shuffle(ranks)
    ranks = ranks[:n]
    s.build(1, ranks, gen_anns(rng, ranks, style=annstyle) if anns is None else anns)
    return s, ranks


def sampling_session(rec, rng, prop, opts):
    n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 14, 20])
    huge = rng.random() < 0.04
    if huge:
        n = rng.randint(24, 64)
    vast = opts["index"] == 0            # more pairs than any batch
    if vast:
        n = rng.randint(110, 190)
    N = n + (rng.choice([0, 0, 1, 2]) if not vast else 0)
    unit = rng.choice([1, 1, 1000])
    vec = gen_vec(rng, N, style=rng.choice(["fine", "fine", "offset", None]) if unit != 1 else None)
    if vast:
        vec = gen_vec(rng, N, rng.choice([1, 2]), rng.choice(["fine", "wide", "blobs"]))
    anns = None
    if vast:
        t = {r: rng.randrange(6) for r in range(1, N + 1)}
        anns = [(x, y, 1 if t[x] == t[y] else 2) for x, y in (rng.sample(range(1, n + 1), 2) for _ in range(rng.choice([0, 40, 70])))]
    s, ranks = start(rec, rng, n, vec, "sampling", unit, annstyle=rng.choice([None, None, None, "sparse"]), anns=anns)
    k = rng.choice([1, 2, 3, n])
    pool = rng.choice([range(k), range(k), rng.sample([-3, -2, -1, 0, 1, 5, 17, 10 ** 6], min(k, 8))])
    lab = [rng.choice(pool) for _ in range(N)]
    if prop == "C12":
        combos = [(r, d) for r in (0, 1, 2) for d in (1, 2)]
    else:
        combos = [(r, d) for r in (0, 1, 2) for d in (0, 1, 2)]
    if not vast:
        s.obs(1, rng_too=False)
    reused = {}
    for _ in range(opts.get("runs", 6) if not huge and not vast else 2):
        restr, dist = rng.choice(combos)
        wa, wi = rng.choice([(True, True), (True, True), (False, True), (True, False), (False, False)])
        nb = rng.choice([0, 1, 1, 2, 3, 5, n, n * n]) if not vast else rng.choice([3, n, 1000, 3000, n * n] if prop != "C13" else [3, n, 500])
        seed = rng.choice([-1, 0, 1, 42, 7]) if prop != "C13" else rng.choice([0, 1, 42, 7])
        how = rng.choice(["", "give_all"])
        args = (1, restr, dist, wa, wi, nb, lab, seed)
        if rng.random() < 0.35:         # one object over the life of the manager
            key = (restr, dist, wa, wi, seed)
            if reused and rng.random() < 0.6:
                key = restr, dist, wa, wi, seed = rng.choice(sorted(reused))
                args = (1, restr, dist, wa, wi, nb, lab, seed)
                if rng.random() < 0.6 and n > 1:
                    for _ in range(rng.choice([1, 1, 2, 4])):
                        s.step(1)
            if key not in reused:
                from cognitivefactory.interactive_clustering.sampling.clusters_based import ClustersBasedConstraintsSampling
                out, reused[key] = R.call(ClustersBasedConstraintsSampling, random_seed=seed if seed >= 0 else None, clusters_restriction=RESTR[restr],
                                          distance_restriction=DIST[dist], without_added_constraints=wa, without_inferred_constraints=wi)
                if out != "ok":
                    reused[key] = None
            s.sample(*args, sampler=reused[key], how=how)
        if rng.random() < 0.25 and wa and wi:
            nm, (restr, dist) = rng.choice(list(SAMPLER_NAMES.items()))
            from cognitivefactory.interactive_clustering.sampling.factory import sampling_factory
            out, smp = R.call(sampling_factory, algorithm=nm, random_seed=seed if seed >= 0 else None)
            if out == "ok":
                args = (1, restr, dist, wa, wi, nb, lab, seed)
                s.sample(*args, sampler=smp, how=how)
        s.sample(*args, how=how)
        if prop == "C13":
            perturb(rng)
            s.sample(*args, how=rng.choice(["", "give_all"]))
            # one object, used for something else in between
            from cognitivefactory.interactive_clustering.sampling.clusters_based import ClustersBasedConstraintsSampling
            out, smp = R.call(ClustersBasedConstraintsSampling, random_seed=seed, clusters_restriction=RESTR[restr],
                              distance_restriction=DIST[dist], without_added_constraints=wa, without_inferred_constraints=wi)
            if out == "ok":
                lab2 = [rng.randrange(3) for _ in lab]
                s.sample(1, restr, dist, wa, wi, rng.choice([1, 2, nb]), lab2, seed, sampler=smp)
                s.sample(*args, sampler=smp)
                s.sample(*args, sampler=smp)
            if dist:
                o = list(range(N))
                rng.shuffle(o)
                s.sample(*args, vectors=s.vectors(order=o, extra=True))
            if rng.random() < 0.5:
                s.rebuild(1, 2)
                s.sample(2, *args[1:])
            if rng.random() < 0.5:
                s.sample(*args, how=how, inproc=False)
    if not vast:
        s.obs(1, rng_too=False)


def alg_config(rng, alg, n, prop):
    """(par, nb, must) for a run on n items."""
    seed = rng.choice([0, 1, 2, 42, 123])
    if alg == "kmeans":
        par = rng.choice([{}, {}, {"max_iteration": rng.choice([1, 2, 5])}, {"tolerance": 0.5}, {"tolerance": 0.0, "max_iteration": 8}])
        return par, rng.choice([2, 2, 3, 4, max(2, n // 2), n, n + 3] if n > 1 else [2, 3]) if n else 2, seed
    if alg == "hierarchical":
        return {"linkage": rng.choice(["ward", "average", "complete", "single"])}, max(2, rng.choice([2, 2, 3, 4, n // 2, n, n + 3])), seed
    if alg == "spectral":
        return rng.choice([{}, {}, {"nb_components": rng.choice([2, 3, 5])}]), max(2, rng.choice([2, 2, 3, n])), seed
    if alg == "mpckmeans":
        return rng.choice([{}, {"max_iteration": rng.choice([1, 3])}, {"w": rng.choice([0.5, 2])}]), max(2, rng.choice([2, 2, 3, 4, n])), seed
    if alg == "affinity_propagation":
        par = rng.choice([{}, {}, {"absolute_must_links": True}, {"max_iteration": rng.choice([1, 5, 30])},
                          {"convergence_iteration": 3}])
        if prop not in ("C16", "C28") and rng.random() < 0.2:
            par = {"absolute_must_links": False}
        return par, None, seed
    k = rng.choice([2, 4, 6, 8, 8, 12, 16, 24])
    return {"eps": k / 8, "min_samples": rng.choice([1, 2, 2, 3, 4, 5, 5, 8])}, None, seed


def centers_distinct(ranks, vec, ann):
    grp = {r: r for r in ranks}
    for x, y, t in ann:
        if t == 1:
            a, b = grp[x], grp[y]
            grp = {r: (a if g == b else g) for r, g in grp.items()}
    cs = []
    for g in set(grp.values()):
        mem = [r for r in ranks if grp[r] == g]
        cs.append(tuple(Fraction(sum(vec[r - 1][i] for r in mem), len(mem)) for i in range(len(vec[0]))))
    return len(set(cs)) == len(cs)


def domain(alg, n, vec, s=None):
    """Is the algorithm expected to return on these inputs (rather than raise)?"""
    if alg in ("kmeans", "hierarchical", "dbscan"):
        return n >= 1
    if alg == "affinity_propagation":
        return n >= 1
    if alg == "spectral":
        return n >= 3
    # MPC-kmeans does not cope with coinciding items or group centres (see DESIGN.md)
    return n >= 2 and len({tuple(v) for v in vec}) == len(vec) and (s is None or centers_distinct(s.order[1], s.vec, s.ann[1]))


def unit_for(alg, rng=None):
    """Vectors are integer vectors divided by the unit: absolute scale must not matter to what is judged."""
    if alg in ("dbscan", "spectral"):
        return 8
    if rng is None:
        return 1
    return rng.choice({"kmeans": [1, 1, 8, 0.02], "hierarchical": [1, 1, 8, 1000, 0.02],
                       "affinity_propagation": [1, 1, 8, 100]}.get(alg, [1]))


def affinity(s, m):
    ranks = s.order[m]
    X = np.array([[c / s.unit for c in s.vec[r - 1]] for r in ranks])
    d = ((X[:, None, :] - X[None, :, :]) ** 2).sum(-1)
    K = np.exp(-d / X.shape[1])
    for x, y, _ in [(x, y, 0) for x in ranks for y in ranks]:
        inf = s.h[m].get_inferred_constraint(s.nm(x), s.nm(y))
        if inf is not None:
            K[ranks.index(x), ranks.index(y)] = 1.0 if inf == "MUST_LINK" else 0.0
    return K


def well_posed(s, m):
    """Spectral: the eigenvalues of the normalised affinity are well separated, and so is the data."""
    K = affinity(s, m)
    np.fill_diagonal(K, 0)
    deg = K.sum(1)
    if deg.min() < 1e-3:
        return False
    ev = np.sort(np.linalg.eigvalsh(K / np.sqrt(np.outer(deg, deg))))
    return bool(np.min(np.diff(ev)) > 1e-3)


def stable(s, m, nb, seed):
    """... and the final partition does not hang on a tie: it resists tiny changes of the affinity."""
    from sklearn.cluster import SpectralClustering
    K, rnd, seen = affinity(s, m), np.random.RandomState(7), set()
    for i in range(6):
        e = rnd.uniform(-1e-6, 1e-6, K.shape) * (i > 0)
        try:
            lab = SpectralClustering(n_clusters=nb, affinity="precomputed", random_state=seed).fit_predict(K * (1 + e + e.T)).tolist()
        except Exception:
            return False
        seen.add(tuple(lab.index(x) for x in lab))
    return len(seen) == 1


def vec_for(rng, alg, N):
    if alg == "dbscan":
        style = rng.choice(["grid", "dups", "near", "near", "wide"])
        if style == "near":
            d = rng.choice([1, 2, 2])
            return [[rng.randint(0, 24) for _ in range(d)] for _ in range(N)]
        return gen_vec(rng, N, style=style)
    if alg == "mpckmeans":
        return distinct_vec(rng, N, rng.choice([1, 2, 3]), 15)
    if alg == "spectral" and rng.random() < 0.7:
        return distinct_vec(rng, N, rng.choice([2, 3]), 20)
    return gen_vec(rng, N)


def hier_extras(s, m, par, metric, by="size"):
    def f(model, lab):
        nodes, ok = s.tree(model)
        d = dict(nodes=nodes, link=par.get("linkage", "ward"), export=ok, by=by)
        if metric:
            d["metric"] = True
            if d["link"] == "ward" and not all(all(c == 0 for c in v[1:]) for v in s.vec):
                d["dd"] = [[(math.isqrt(4000000 * sum((p - q) ** 2 for p, q in zip(x, y))) + 1) // 2 for y in s.vec] for x in s.vec]
        return d
    return f


def fits_average(vec, n):
    """The exact comparison of average linkage distances stays within TLC's integers."""
    q = max(1, (n // 2) * ((n + 1) // 2))
    span = max(max(v[i] for v in vec) - min(v[i] for v in vec) for i in range(len(vec[0])))
    return (q * span) ** 2 * len(vec[0]) * q * q < 2 ** 31


def pick_alg(rng, prop):
    return {"C14": lambda: rng.choice(ALGS + ["kmeans", "hierarchical", "dbscan", "spectral", "affinity_propagation"]),
            "C15": lambda: rng.choice(["kmeans", "hierarchical"]),
            "C16": lambda: rng.choice(["affinity_propagation", "dbscan"]),
            "C17": lambda: "hierarchical",
            "C18": lambda: rng.choice(["hierarchical"] * 5 + ["mpckmeans", "kmeans", "spectral"]),
            "C19": lambda: "kmeans",
            "C20": lambda: rng.choice(ALGS),
            "C26": lambda: "dbscan",
            "C34": lambda: "dbscan",
            "C28": lambda: "affinity_propagation"}[prop]()


def cluster_session(rec, rng, prop, opts):
    alg = opts.get("alg") or ("" if prop in ("C32", "C35") else pick_alg(rng, prop))
    if prop == "C19":
        return kmeans_session(rec, rng, opts)
    if prop == "C32":
        return mpc_session(rec, rng, opts)
    if prop == "C35":
        return ap_session(rec, rng, opts)
    big = rng.random() < (0.08 if prop == "C17" else 0.2)
    n = rng.randint(1, 9) if not big else rng.randint(12, 26)
    if prop == "C17" and big:
        n = rng.randint(10, 14)
    wide = prop == "C17" and rng.random() < 0.04      # the shape of bigger trees, or one linkage
    if wide:
        n = rng.randint(15, 48)
    if alg == "mpckmeans":
        n = rng.randint(2, 7) if not big else rng.randint(8, 14)
    huge = alg != "mpckmeans" and prop not in ("C17", "C26", "C28", "C34") and rng.random() < 0.03
    if huge:
        n = rng.randint(40, 72)
    if prop in ("C26", "C34"):
        n = rng.randint(2, 12) if not big else rng.randint(13, 24)
    wide = wide or prop in ("C26", "C28", "C34") and rng.random() < 0.02
    if wide and prop != "C17":
        n = rng.randint(24, 50)
    N = n + rng.choice([0, 0, 1])
    vec = vec_for(rng, alg, N)
    metric = False
    if alg == "hierarchical":
        metric = prop == "C17" and not (wide and n > 22)
    s, ranks = start(rec, rng, n, vec, "%s %s" % (prop, alg), unit_for(alg, rng), annstyle="none" if prop == "C26" and rng.random() < 0.6 else None)
    kept = None                       # an object used again, with its parameters
    for _ in range(1 if huge or wide else opts.get("runs", 3)):
        n = len(s.order[1])
        mvec = [vec[r - 1] for r in s.order[1]]
        par, nb, seed = alg_config(rng, alg, n, prop)
        if prop != "C20" and rng.random() < 0.1:
            seed = -1
        must = domain(alg, n, mvec, s)
        extras = None
        met = metric
        if alg == "hierarchical":
            if met and (wide or (par["linkage"] == "average" and not fits_average(vec, n))):
                par = {"linkage": rng.choice(["complete", "single"])}
            extras = hier_extras(s, 1, par, met)
        if prop == "C20":
            if alg == "spectral" and not (n >= 3 and well_posed(s, 1)):
                continue
            repro(s, rng, alg, par, nb, seed, must, extras)
            continue
        reuse = None
        if kept is not None and rng.random() < 0.4:
            reuse, par, seed, met = kept
            if alg == "hierarchical":
                extras = hier_extras(s, 1, par, met)
        out, model, lab = s.cluster(1, alg, par, nb, seed, model=reuse, must=must, extras=extras)
        if out != "ok":
            continue
        kept = (model, par, seed, met)
        if alg == "hierarchical" and prop in ("C14", "C15", "C18"):
            for _ in range(3):
                s.cut(1, model, max(2, rng.choice([2, 3, n // 2, n, n + 2])), rng.choice(["size", "iteration"]))
        # the manager may evolve between two clusterings
        if rng.random() < 0.3:
            evolve(s, rng, 1)


def evolve(s, rng, m):
    ranks = s.order[m]
    if len(ranks) < 2:
        return
    if rng.random() < 0.3:            # an item leaves or arrives
        out_of = [r for r in range(1, len(s.names) + 1) if r not in ranks]
        if out_of and (len(ranks) < 3 or rng.random() < 0.6):
            r = rng.choice(out_of)
            if s.addid(m, r) == "ok":
                ranks.append(r)
        elif len(ranks) > 3:
            r = rng.choice(ranks)
            if s.delid(m, r) == "ok":
                ranks.remove(r)
                s.ann[m] = [a for a in s.ann[m] if r not in a[:2]]
    for _ in range(2):
        if s.ann[m] and rng.random() < 0.4:
            a = rng.choice(s.ann[m])
            s.delc(m, a[0], a[1])
            s.ann[m].remove(a)
        else:
            x, y = rng.sample(ranks, 2)
            t = rng.choice([1, 2])
            if s.addc(m, x, y, t) == "ok" and not any({a, b} == {x, y} for a, b, _ in s.ann[m]):
                s.ann[m].append((x, y, t))


def repro(s, rng, alg, par, nb, seed, must, extras):
    a = (alg, par, nb, seed)
    s.obs(1, rng_too=False)
    out, model, lab = s.cluster(1, *a, must=must, extras=extras)
    if out != "ok":
        return
    s.obs(1, rng_too=False)          # quiet: the manager is unchanged
    perturb(rng)
    s.cluster(1, *a, model=model, must=must)                 # same object again
    if rng.random() < 0.5:                                   # ... after something else
        N = len(s.names)
        other = CSessionLike(s, rng)
        R.call(model.cluster, constraints_manager=other[0], vectors=other[1], nb_clusters=nb)
        perturb(rng)
        s.cluster(1, *a, model=model, must=must)
    o = list(range(len(s.names)))
    rng.shuffle(o)
    perturb(rng)
    s.cluster(1, *a, vectors=s.vectors(order=o, extra=rng.random() < 0.7), must=must)
    if rng.random() < 0.6:
        s.rebuild(1, 2)
        s.cluster(2, *a, must=must)
    if rng.random() < 0.3 and s.reload(1, 3) == "ok":
        s.order[3], s.ann[3] = s.order[1], s.ann[1]
        s.cluster(3, *a, must=must)
    if rng.random() < 0.7:
        s.cluster(1, *a, mode="worker", must=must)


def CSessionLike(s, rng):
    """Another problem (manager, vectors), unrelated to the session."""
    from cognitivefactory.interactive_clustering.constraints.binary import BinaryConstraintsManager
    n = rng.randint(2, 6)
    names = ["o%d" % i for i in range(n)]
    m = BinaryConstraintsManager(list_of_data_IDs=names)
    for x, y, t in gen_anns(rng, list(range(n)), noise=0):
        m.add_constraint(data_ID1=names[x], data_ID2=names[y], constraint_type=R.TYPES[t])
    return m, to_vectors(names, distinct_vec(rng, n), 1)


def kmeans_session(rec, rng, opts):
    """The iterates of COP-kmeans, one call per iteration limit, and a free run."""
    n = rng.randint(2, 7) if rng.random() < 0.8 else rng.randint(8, 12)
    if rng.random() < 0.08:
        n = rng.randint(13, 36)
    N = n + rng.choice([0, 0, 1])
    vec = gen_vec(rng, N)
    s, ranks = start(rec, rng, n, vec, "kmeans iterations", unit_for("kmeans", rng))
    kmeans_iterates(s, rng, n)


def kmeans_iterates(s, rng, n):
    nb = rng.choice([2, 2, 3, 4, n, n + 2] if n < 8 else [2, 2, 3, 4])
    nb = max(2, nb)
    seed = rng.choice([0, 1, 5, 42])
    prev, its = None, []

    def centroids(model, lab):
        try:
            ks = list(model.centroids.keys())
            cs = [[int(round(float(x) * s.unit * SCALE)) for x in np.asarray(model.centroids[k].todense()).flatten()] for k in ks]
            return dict(centk=[int(k) for k in ks], cent=cs)
        except Exception:
            return dict(centk=[-1], cent=[[]])
    for it in range(1, rng.randint(2, 6)):
        par = {"max_iteration": it, "tolerance": 0.0}

        def ex(model, lab):
            d = centroids(model, lab)
            if n > 12 and max(len(set(lab)), len(set(prev or lab))) > 6:      # matching the clusters is a search
                return d
            d["iter"] = it
            if math.comb(n, min(nb, n)) > 800:      # too many possible seeds
                d["noseeds"] = True
            d["prev"] = prev or lab
            return d
        out, model, lab = s.cluster(1, "kmeans", par, nb, seed, extras=ex)
        if out != "ok":
            return
        prev = lab
        its.append(lab)
    lim = rng.choice([len(its), 150])
    if lim == 150:
        while len(its) < 12:
            model = make_model("kmeans", {"max_iteration": len(its) + 1, "tolerance": 0.0}, seed)
            out, v = R.call(model.cluster, constraints_manager=s.h[1], vectors=s.vectors(), nb_clusters=nb)
            if out != "ok":
                return
            its.append(s.labels(1, v)[1])
    par = {"max_iteration": lim}
    if rng.random() < 0.5:
        par["tolerance"] = 1e-4

    def ex2(model, lab):
        return dict(centroids(model, lab), its=its, lim=lim)
    s.cluster(1, "kmeans", par, nb, seed, extras=ex2)


def mpc_session(rec, rng, opts):
    """The rounds of MPC-kmeans, one call per iteration limit."""
    n = rng.choice([2, 3, 4, 5, 5, 6, 6, 7, 7])
    N = n + rng.choice([0, 0, 1])
    d = rng.choice([1, 2, 2, 2, 2, 3])
    vec = distinct_vec(rng, N, d, 15 if d == 1 else 5)
    s, ranks = start(rec, rng, n, vec, "mpckmeans rounds", rng.choice([1, 1, 8, 0.02]), annstyle=rng.choice([None, "truth", "clonly", "mlonly"]))
    mpc_rounds(s, rng, n)


def mpc_rounds(s, rng, n, nbs=None):
    d = len(s.vec[0])
    must = domain("mpckmeans", n, [s.vec[r - 1] for r in s.order[1]], s)
    for _ in range(1):
        nb = rng.choice(nbs or [2, 2, 3, 3, 4, n]) if n > 1 else 2
        nb = max(2, min(nb, 4 if n > 4 else n + 1))
        w = rng.choice([None, None, 0, 0.5, 0.5, 1, 2, 3])
        seed = rng.choice([0, 1, 2, 3, 42, 77])
        its = []
        for it in range(1, 2 if d > 2 else rng.choice([2, 3, 4, 5])):
            par = {"max_iteration": it}
            if w is not None:
                par["w"] = float(w)
            out, model, lab = s.cluster(1, "mpckmeans", par, nb, seed, must=must)
            if out != "ok":
                if must:
                    s.rec.emit(op="mpc", m=1, nb=nb, w2=0, vec=s.vec, its=[], out=out)
                return
            its.append(lab)
        s.rec.emit(op="mpc", m=1, nb=nb, w2=int(2 * (1 if w is None else w)), vec=s.vec, its=its, out="ok")


# ---- affinity propagation, message by message (C35)
AP_SCALE = 2 ** 14


def ap_points(vec, groups, aml):
    """Similarities between the points and their preference, as real numbers."""
    X = np.array(vec, dtype=float)
    n = len(X)
    S = -np.sqrt(((X[:, None, :] - X[None, :, :]) ** 2).sum(-1))
    G = np.array([[max(S[i, j] for i in g for j in h) for h in groups] for g in groups])
    if aml:
        T, pref = G, np.median(G)
    else:
        M = np.array([[max(S[i, j] for j in h) for h in groups] for i in range(n)])
        T, pref = np.block([[S, M], [M.T, 2 * S.min() * np.ones((len(groups), len(groups)))]]), np.median(S)
    T = T.copy()
    np.fill_diagonal(T, pref)
    return T


def ap_run(S, conv, maxit, rnd=None, noise=0.0, fixed=False):
    """Exemplar of each point (None: no convergence); used to tell which problems do not hang on a tie."""
    N = len(S)
    if N == 1:
        return None
    cut = (lambda m: np.floor(m * AP_SCALE) / AP_SCALE) if fixed else (lambda m: m)
    jit = (lambda: noise * rnd.uniform(-1, 1, (N, N))) if noise else (lambda: 0.0)
    size = max(1.0, abs(S).max())
    S = -cut(-S * (1 + jit()) + size * jit() / 10)
    A, Rm, hist = np.zeros((N, N)), np.zeros((N, N)), []
    for t in range(1, maxit + 1):
        T = A + S
        best = T.argmax(1)
        y = T.max(1)
        T[np.arange(N), best] = -np.inf
        Y = np.repeat(y[:, None], N, 1)
        Y[np.arange(N), best] = T.max(1)
        Rm = cut(0.5 * (Rm + S - Y)) + size * jit() / 20
        P = np.maximum(Rm, 0)
        np.fill_diagonal(P, np.diag(Rm))
        new = -np.maximum(0, P - P.sum(0))
        np.fill_diagonal(new, P.sum(0) - np.diag(P))
        A = cut(0.5 * (A + new)) + size * jit() / 20
        hist.append(tuple((np.diag(A) + np.diag(Rm) > 0).tolist()))
        if t > conv and len(set(hist[-conv:])) == 1 and any(hist[-1]):
            break
    else:
        return None
    E = [i for i in range(N) if hist[-1][i]]
    for _ in range(2):
        c = [E.index(i) if i in E else int(np.argmax(S[i, E])) for i in range(N)]
        old, E = E, []
        for k in range(len(old)):
            C = [i for i in range(N) if c[i] == k]
            E.append(C[int(np.argmax([sum(S[i, j] for i in C) for j in C]))])
    return [old[k] for k in c]


def ap_clear(vec, groups, aml, conv, maxit):
    """Is the outcome the same under small changes of the similarities and messages?"""
    if len({tuple(v) for v in vec}) < len(vec):
        return False
    S, rnd, seen = ap_points(vec, groups, aml), np.random.RandomState(5), set()
    for noise in [0.0] + [1e-3, 1e-5, 1e-7, 1e-9] * 6 + [None]:
        r = ap_run(S, conv, maxit, rnd, noise or 0.0, noise is None)
        r = [0] * len(S) if r is None else r
        seen.add(tuple(r.index(x) for x in r))
    return len(seen) == 1


def ap_session(rec, rng, opts):
    aml = rng.random() < 0.7
    n = rng.choice([2, 3, 4, 5, 5, 6, 6, 7, 7, 8, 9, 12] if aml else [2, 3, 4, 4, 5, 5, 6])
    if opts["index"] == 0:
        n = rng.randint(16, 22) if aml else 9
    d = rng.choice([1, 1, 2, 2, 3])
    style = rng.choice(["any", "any", "blobs", "line"])
    if style == "blobs":
        k = rng.choice([2, 2, 3])
        at = [[rng.randint(0, 80) for _ in range(d)] for _ in range(k)]
        vec = [[c + rng.randint(0, 12) for c in rng.choice(at)] for _ in range(n)]
    elif style == "line":
        vec = [[min(i * i, 10 * i) + rng.randint(0, 5)] + [rng.randint(0, 2) for _ in range(d - 1)] for i in range(n)]
        rng.shuffle(vec)
    else:
        vec = [[rng.randint(0, 100) for _ in range(d)] for _ in range(n)]
    s, ranks = start(rec, rng, n, vec, "affinity propagation", rng.choice([1, 1, 8, 0.25]))
    for _ in range(opts.get("runs", 3)):
        ap_rounds(s, rng, aml)
        if rng.random() < 0.3:
            evolve(s, rng, 1)


def ap_rounds(s, rng, aml, tries=1):
    ranks = s.order[1]
    grp = {r: r for r in ranks}
    for x, y, t in s.ann[1]:
        if t == 1:
            a, b = grp[x], grp[y]
            grp = {r: (a if g == b else g) for r, g in grp.items()}
    groups = [[i for i, r in enumerate(ranks) if grp[r] == g] for g in sorted(set(grp.values()))]
    mvec = [s.vec[r - 1] for r in ranks]
    for _ in range(tries):
        par = {"absolute_must_links": aml}
        if rng.random() < 0.6:
            par["convergence_iteration"] = rng.choice([1, 2, 3, 5, 8, 12])
        if rng.random() < 0.4:
            par["max_iteration"] = rng.choice([1, 2, 3, 5, 8, 12, 20, 40, 60])
        conv, maxit = par.get("convergence_iteration", 10), par.get("max_iteration", 150)
        clear = ap_clear(mvec, groups, aml, conv, maxit)

        def ex(model, lab):
            if not clear:
                return {}
            dd = [[math.isqrt(AP_SCALE ** 2 * sum((p - q) ** 2 for p, q in zip(x, y))) for y in s.vec] for x in s.vec]
            return dict(ap=dict(conv=conv, maxit=maxit), dd=dd)
        s.cluster(1, "affinity_propagation", par, None, rng.choice([0, 1, 42, 7]), must=True, extras=ex)


_literals = []


def literals():
    """The short strings written in the package: IDs that are most likely to be mistaken for something else."""
    if not _literals:
        import ast, glob
        import cognitivefactory.interactive_clustering as ic
        root = os.path.dirname(ic.__file__)
        found = set()
        for path in glob.glob(os.path.join(root, "**", "*.py"), recursive=True):
            with open(path, encoding="utf-8") as f:
                for node in ast.walk(ast.parse(f.read())):
                    if isinstance(node, ast.Constant) and isinstance(node.value, str) and len(node.value) <= 22:
                        found.add(node.value)
        strong = [w for w in sorted(found) if w.isupper()]
        _literals.extend(sorted(found) + strong * 10 + ["NONE", "None", "", "-1", "0", "CORE", "NOISE", "nan"])
    return _literals


def naming_session(rec, rng, prop, opts):
    """The same history under two spellings of the IDs with the same order (C27)."""
    n = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 12, 16])
    alg0 = rng.choice(ALGS + ["dbscan"])
    if opts["index"] == 0 and alg0 != "mpckmeans":
        n = rng.randint(24, 50)
    vec = vec_for(rng, alg0, n)
    unit = unit_for(alg0)
    a, b = universe(rng, n), universe(rng, n)
    if rng.random() < 0.75:         # words some code may give a meaning to
        for w in rng.sample(literals(), rng.choice([1, 1, 2])):
            if w not in b:
                b[rng.randrange(n)] = w
    s1 = CSession(rec, rng, a, vec, {"kind": "naming", "other": sorted(b)}, unit)
    s2 = CSession(rec, rng, b, vec, unit=unit, cont=True)
    s2.tags = {"ren": True}
    ranks = list(range(1, n + 1))
    rng.shuffle(ranks)
    st = rng.getstate()
    anns = gen_anns(rng, ranks)
    for s, m in ((s1, 1), (s2, 2)):
        s.order, s.ann = {m: list(ranks)}, {m: []}
        s.new(m, ranks)
    hist = []
    for (x, y, t) in anns:
        hist.append(("addc", x, y, t))
        if rng.random() < 0.15:
            hist.append(("delc", *rng.choice([(x, y), tuple(rng.sample(ranks, 2))])))
    if rng.random() < 0.3:
        x = rng.choice(ranks)
        hist += [("delid", x), ("addid", x)]
        s1.order[1] = s2.order[2] = [r for r in ranks if r != x] + [x]
    live = {}
    for h in hist:
        for s, m in ((s1, 1), (s2, 2)):
            out = getattr(s, h[0])(m, *h[1:])
        k = frozenset(h[1:3])
        if h[0] == "addc" and out == "ok":
            live.setdefault(k, h[1:])
        elif h[0] == "delc":
            live.pop(k, None)
        elif h[0] == "delid":
            live = {k: v for k, v in live.items() if h[1] not in k}
    s1.ann[1] = s2.ann[2] = list(live.values())
    if rng.random() < 0.2:
        s2.reload(2, 2)
    s1.obs(1, rng_too=False)
    s2.obs(2, rng_too=False)
    s1.twin(1, 2, "C27")
    k = rng.choice([2, 3, n])
    lab = [rng.randrange(k) for _ in range(n)]
    for _ in range(4):
        restr, dist = rng.choice([(r, d) for r in (0, 1, 2) for d in (0, 1, 2)])
        wa, wi = rng.choice([(True, True), (False, True), (True, False), (False, False)])
        args = (restr, dist, wa, wi, rng.choice([1, 2, 3, n]), lab, rng.choice([0, 1, 42]))
        s1.sample(1, *args)
        s2.sample(2, *args)
    algs = [alg0] + [rng.choice([a for a in ALGS if n < 30 or a != "mpckmeans"]) for _ in range(2)]
    if unit == 8:
        algs += ["dbscan"] * 3
    for alg in algs:
        if alg == "spectral" and not (n >= 3 and well_posed(s1, 1)):
            continue
        must = domain(alg, n, vec, s1)
        par, nb, seed = alg_config(rng, alg, n, prop)
        out, m1, _ = s1.cluster(1, alg, par, nb, seed, must=must)
        if out == "ok":
            s2.cluster(2, alg, par, nb, seed, must=must)


def reworded(rng, ranks, ann):
    """Other annotations that say the same: same groups, same groups in conflict."""
    grp = {r: r for r in ranks}
    for x, y, t in ann:
        if t == 1:
            a, b = grp[x], grp[y]
            grp = {r: (a if g == b else g) for r, g in grp.items()}
    mem = {g: [r for r in ranks if grp[r] == g] for g in set(grp.values())}
    out = []
    for c in mem.values():
        rng.shuffle(c)
        shape = rng.choice(["chain", "star", "tree", "all"])
        for i in range(1, len(c)):
            for j in {"chain": [i - 1], "star": [0], "tree": [rng.randrange(i)], "all": range(i)}[shape]:
                out.append((c[i], c[j], 1))
    for g, h in sorted({tuple(sorted((grp[x], grp[y]))) for x, y, t in ann if t == 2}):
        for _ in range(rng.choice([1, 1, 2])):
            out.append((rng.choice(mem[g]), rng.choice(mem[h]), 2))
    rng.shuffle(out)
    return [(x, y, t) if rng.random() < 0.5 else (y, x, t) for x, y, t in out]


def equivalent_session(rec, rng, prop, opts):
    """The same knowledge worded differently gives the same samples and clusterings (C30)."""
    n = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 20])
    if opts["index"] < 2:
        n = rng.randint(30, 70)
    alg = rng.choice(ALGS)
    if alg == "mpckmeans":
        n = min(n, 30)
    vec = vec_for(rng, alg, n)
    s, ranks = start(rec, rng, n, vec, "equivalent " + alg, unit_for(alg), annstyle=rng.choice([None, "truth"]))
    s.tags = {"eqv": True}
    kept = {}
    if alg == "spectral" and not (n >= 3 and well_posed(s, 1)):
        alg = "kmeans"
    par, nb, seed = alg_config(rng, alg, n, "C16")
    must = domain(alg, n, [vec[r - 1] for r in ranks], s)
    k = rng.choice([2, 3, n])
    lab = [rng.randrange(k) for _ in range(n)]
    opt = [(rng.choice([0, 1, 2]), rng.choice([0, 0, 1, 2]), *rng.choice([(True, True), (True, True), (False, True), (False, False)]),
            rng.choice([1, 2, 3, n]), lab, rng.choice([0, 1, 42])) for _ in range(3)]
    for m in (1, 2, 3):
        if m > 1:
            s.build(m, ranks, reworded(rng, ranks, s.ann[1]), detours=rng.random() < 0.5)
        s.cluster(m, alg, par, nb, seed, must=must, model=kept.get(1) if rng.random() < 0.3 else None)
        for o in opt:
            s.sample(m, *o)


def view_session(rec, rng, prop, opts):
    """Spectral clustering sees the distances of unknown pairs only; a must-link is a null distance, a cannot-link an infinite one (C31)."""
    mode = rng.choice(["mirror", "coincide", "far"])
    for _ in range(80):
        n = rng.choice([3, 4, 5, 6, 7, 8, 10, 14])
        if mode == "far":
            n = rng.choice([4, 5, 6, 7, 8])
        ranks = rng.sample(range(1, n + 1), n)
        truth = {r: rng.randrange(rng.choice([1, 2, 2, 3])) for r in ranks}
        # items of `off` are off the axis (plane) of the others, and mutually known
        off = ranks[: rng.randint(2, min(n - 1, 5))]
        more = [(x, y) for i, x in enumerate(ranks) for y in ranks[:i] if rng.random() < 0.1]
        if mode == "mirror":
            base = distinct_vec(rng, n, rng.choice([1, 1, 2]), 24)
            vec = [base[r - 1] + [rng.choice([-1, 1]) * rng.randint(1, 12) if r in off else 0] for r in range(1, n + 1)]
            anns = [(x, y, 1 if truth[x] == truth[y] else 2) for x, y in [(x, y) for i, x in enumerate(off) for y in off[:i]] + more]
            rng.shuffle(anns)
        elif mode == "coincide":
            base = distinct_vec(rng, n, rng.choice([1, 1, 2]), 24)
            for x in off:
                base[x - 1], truth[x] = base[off[0] - 1], truth[off[0]]
            h = rng.randint(2, 14)
            vec = [base[r - 1] + [rng.choice([-1, 1]) * h if r in off else 0] for r in range(1, n + 1)]
            rest = [(x, y, 1 if truth[x] == truth[y] else 2) for x, y in more if not (x in off or y in off)]
            rest += [(x, z, 2) for z in ranks if z not in off and truth[z] != truth[off[0]] and rng.random() < 0.15 for x in off]
            anns = rest + [(x, rng.choice(off[:i]), 1) for i, x in enumerate(off) if i]
        else:
            step = -(-rng.randint(50, 60) // (n - 1))
            at = [i * step + rng.randint(-3, 3) for i in range(n)]
            vec = [None] * n
            for r, a in zip(ranks, at):
                vec[r - 1] = [a]
            anns = [(x, y, 1) for x, y in more if rng.random() < 0.4 and abs(vec[x - 1][0] - vec[y - 1][0]) < 16]
        trial = Recorder()
        s = CSession(trial, rng, universe(rng, n), vec, {"kind": "view"}, 8)
        s.build(1, ranks, anns)
        nb, seed = rng.choice([2, 2, 3, 4]), rng.choice([0, 1, 42])
        if well_posed(s, 1) and nb < n and stable(s, 1, nb, seed):
            break
    else:
        return
    s.rec = rec
    rec.begin({"kind": "view", "names": s.names, "vec": vec})
    for ev in trial.events[1:]:
        rec.emit(**ev)
    s.tags = {"view": True}
    par = rng.choice([{}, {"nb_components": rng.choice([2, 3, 5])}])
    s.cluster(1, "spectral", par, nb, seed)
    if mode == "mirror":
        for _ in range(2):
            s.vec = [list(v) for v in s.vec]
            for x in off:
                s.vec[x - 1][-1] *= rng.choice([-1, 1])
            s.cluster(1, "spectral", par, nb, seed)
    elif mode == "coincide":
        s.vec = [list(s.vec[off[0] - 1]) if r in off else list(s.vec[r - 1]) for r in range(1, n + 1)]
        s.cluster(1, "spectral", par, nb, seed)
        s.build(2, ranks, rest)
        s.cluster(2, "spectral", par, nb, seed)
    else:
        far = [(x, y) for x in ranks for y in ranks if x < y and (vec[x - 1][0] - vec[y - 1][0]) ** 2 >= 2304]
        rng.shuffle(far)
        for x, y in far[:3]:
            if rng.random() < 0.5:
                x, y = y, x
            s.addc(1, x, y, 2)
            s.cluster(1, "spectral", par, nb, seed)


def isometries(rng, vec, rotate):
    """The same points, five times bigger, moved in three ways; exact integers."""
    vec = [[5 * c for c in v] for v in vec]
    out = [vec]
    for _ in range(2):
        w = [list(v) for v in rng.choice(out)]
        for step in rng.sample(["turn", "flip", "swap", "move"], rng.randint(1, 4)):
            if step == "turn" and rotate:
                a, b = rng.choice([(3, 4), (4, 3), (-3, 4), (3, -4)])
                if all((a * x - b * y) % 5 == 0 and (b * x + a * y) % 5 == 0 for x, y in w):
                    w = [[(a * x - b * y) // 5, (b * x + a * y) // 5] for x, y in w]
            elif step == "flip":
                s = rng.choice([(1, -1), (-1, 1), (-1, -1)])
                w = [[s[0] * x, s[1] * y] for x, y in w]
            elif step == "swap":
                w = [[y, x] for x, y in w]
            else:
                t = [rng.choice([0, 1, -7, 40, 1000, -1000]) for _ in range(2)]
                w = [[x + t[0], y + t[1]] for x, y in w]
        out.append(w)
    return out


def isometry_session(rec, rng, prop, opts):
    """Only the relative position of the vectors matters (C33)."""
    alg = rng.choice(ALGS + ["sampling"])
    generic = alg in ("kmeans", "hierarchical", "mpckmeans", "spectral") or rng.random() < 0.5
    n = rng.choice([2, 3, 4, 5, 6, 7, 8, 12, 16]) if alg != "mpckmeans" else rng.randint(3, 8)
    if opts["index"] == 0 and alg not in ("spectral", "mpckmeans"):
        n = rng.randint(30, 70)
    hi = {"dbscan": 5, "spectral": 3}.get(alg, 400 if generic else 4)
    unit = rng.choice([1, 8])
    if alg in ("dbscan", "spectral"):
        unit = 8
    if generic and alg == "dbscan":
        hi = 12
    if alg == "spectral":
        if n < 3:
            return
        base = distinct_vec(rng, n, 2, max(3, n))
    else:
        base = distinct_vec(rng, n, 2, hi) if alg != "sampling" and generic else [[rng.randint(0, hi), rng.randint(0, hi)] for _ in range(n)]
    vecs = isometries(rng, base, alg != "mpckmeans")
    s, ranks = start(rec, rng, n, vecs[0], "isometry " + alg, unit)
    s.tags = {"iso": True}
    if alg == "sampling":
        lab = [rng.randrange(3) for _ in range(n)]
        for _ in range(3):
            args = (1, rng.randrange(3), rng.choice([1, 2]), rng.random() < 0.5, rng.random() < 0.5, rng.choice([1, 2, 5, n * n]), lab, rng.choice([0, 1, 42]))
            for v in vecs:
                s.vec = v
                s.sample(*args)
        return
    for _ in range(2):
        s.vec = vecs[0]
        par, nb, seed = alg_config(rng, alg, n, prop)
        must = domain(alg, n, [s.vec[r - 1] for r in s.order[1]], s)
        if alg == "spectral" and not (well_posed(s, 1) and nb < n and stable(s, 1, nb, seed)):
            return
        for v in vecs:
            s.vec = v
            s.cluster(1, alg, par, nb, seed, must=must)


def cover_session(rec, rng, prop, opts):
    """What a sampler without distance restriction can draw, over many seeds (C29)."""
    from cognitivefactory.interactive_clustering.sampling.clusters_based import ClustersBasedConstraintsSampling
    from cognitivefactory.interactive_clustering.sampling.factory import sampling_factory
    many = rng.random() < 0.2
    n = rng.choice([2, 3, 4, 5, 6, 7, 7, 12]) if not many else rng.randint(14, 40)
    s, ranks = start(rec, rng, n, [[0]] * n, "draws", annstyle=rng.choice([None, None, "sparse"]))
    k = rng.choice([1, 2, 3])
    lab = [rng.randrange(k) for _ in range(n)]
    for _ in range(1 if n > 7 else 2):
        restr = rng.choice([0, 0, 1, 2])
        wa, wi = rng.choice([(True, True), (True, True), (False, True), (True, False), (False, False)])
        nb = rng.choice([1, 1, 2, 3])
        unseeded, fact = rng.random() < 0.3, wa and wi and restr < 2 and rng.random() < 0.4
        clu = {s.nm(r): lab[r - 1] for r in ranks} if restr else None
        total = n * (n - 1) // 2
        draws, out, seen = [], "ok", set()
        smp = None
        if many:                      # each eligible pair is drawn with probability 1/4 at least
            nb = (total + 3) // 4
        for seed in range(160 if many else 40 * total):
            if fact:
                out, smp = R.call(sampling_factory, algorithm=["random", "random_in_same_cluster"][restr], random_seed=None if unseeded else seed)
            elif smp is None or not unseeded:
                out, smp = R.call(ClustersBasedConstraintsSampling, random_seed=None if unseeded else seed, clusters_restriction=RESTR[restr],
                                  without_added_constraints=wa, without_inferred_constraints=wi)
            if out == "ok":
                out, v = R.call(smp.sample, constraints_manager=s.h[1], nb_to_select=nb, clustering_result=clu)
            if out != "ok":
                break
            try:
                d = [[s.rk(a), s.rk(b)] for a, b in v]
            except Exception:
                d = [[0, 0]]
            if not d:
                break
            d = sorted(d)
            new = {tuple(p) for p in d} - seen
            if new or len(draws) < 3 and d not in draws:
                draws.append(d)
                seen |= new
        rec.emit(op="cover", m=1, restr=restr, wa=wa, wi=wi, nb=nb, lab=lab, out=out, draws=draws)
