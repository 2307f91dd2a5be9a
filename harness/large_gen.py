"""Managers and clusterings of about a thousand items (spec/Large.tla): the recorder gives a certificate of the groups, TLC checks it and judges."""
import os, shutil, tempfile
import rec as R


def certificate(n, ann):
    """seg, up, dep: root, neighbour towards the root and depth of each item (ranks 1..n)."""
    adj = {x: [] for x in range(1, n + 1)}
    for x, y, t in ann:
        if t == 1:
            adj[x].append(y)
            adj[y].append(x)
    seg, up, dep = [0] * n, [0] * n, [0] * n
    for r in range(1, n + 1):
        if seg[r - 1]:
            continue
        seg[r - 1], up[r - 1] = r, r
        level = [r]
        while level:
            nxt = []
            for x in level:
                for y in adj[x]:
                    if not seg[y - 1]:
                        seg[y - 1], up[y - 1], dep[y - 1] = r, x, dep[x - 1] + 1
                        nxt.append(y)
            level = nxt
    return seg, up, dep


def links(rng, g, style):
    if style == "chain":
        return [(a, b, 1) for a, b in zip(g, g[1:])]
    if style == "reversed":
        return [(b, a, 1) for a, b in zip(g, g[1:])][::-1]
    if style == "star":
        return [(g[0], b, 1) for b in g[1:]]
    if style == "halves":
        h = len(g) // 2
        out = [(a, b, 1) for a, b in zip(g[:h], g[1:h])] + [(a, b, 1) for a, b in zip(g[h:], g[h + 1:])]
        return out + ([(g[0], g[-1], 1)] if len(g) > 1 else [])
    return [(g[i], g[rng.randrange(i)], 1) for i in range(1, len(g))]      # a random tree


STYLES = ["chain", "reversed", "star", "halves", "tree"]


class Big:
    def __init__(self, rec, rng, kind, core=None):
        self.rec, self.rng = rec, rng
        core = core or rng.randint(1010, 1200)
        sizes = [core] + [rng.choice([1, 1, 2, 7]) for _ in range(rng.randint(2, 4))]
        self.n = n = sum(sizes)
        self.names = sorted(rng.choice(["%04d", "it%d", "é %d"]) % i for i in range(n))
        while len(set(self.names)) < n:
            self.names = sorted("%04d" % i for i in range(n))
        self.rank = {x: i + 1 for i, x in enumerate(self.names)}
        ranks = list(range(1, n + 1))
        if rng.random() < 0.5:
            rng.shuffle(ranks)
        self.order = ranks[:]
        if rng.random() < 0.5:
            rng.shuffle(self.order)
        self.groups, k = [], 0
        for z in sizes:
            self.groups.append(ranks[k:k + z])
            k += z
        style = rng.choice(STYLES)
        todo = [x for g in self.groups for x in links(rng, g, style)]
        if rng.random() < 0.4:
            rng.shuffle(todo)
        cls = [(rng.choice(g), rng.choice(h), 2) for i, g in enumerate(self.groups) for h in self.groups[:i] if rng.random() < 0.5]
        rng.shuffle(cls)
        k = rng.choice([0, len(todo), len(todo) // 2])
        self.ann = todo[:k] + cls + todo[k:]
        rec.begin({"kind": kind, "n": n, "style": style, "sizes": sizes, "names": self.names[:3] + ["..."]})

    def nm(self, r):
        return self.names[r - 1]

    def build(self):
        from cognitivefactory.interactive_clustering.constraints.factory import managing_factory
        out, self.m = R.call(managing_factory, list_of_data_IDs=[self.nm(r) for r in self.order])
        if out != "ok":
            self.rec.fact("C05.large_manager", False, out=out, v=self.m)
            return False
        for x, y, t in self.ann:
            out, v = R.call(self.m.add_constraint, data_ID1=self.nm(x), data_ID2=self.nm(y), constraint_type=R.TYPES[t])
            if out != "ok":
                self.rec.fact("C02.large_manager", False, out=out, v=v)
                return False
        return True

    def event(self, op, **ev):
        self.seg, up, dep = certificate(self.n, self.ann)
        self.rec.emit(op=op, n=self.n, order=self.order, A=[[min(x, y), max(x, y), t] for x, y, t in self.ann], seg=self.seg, up=up, dep=dep, **ev)

    def rk(self, x):
        return self.rank.get(x, 0) if isinstance(x, str) else 0

    def obs(self, after=""):
        rng, m = self.rng, self.m
        seg, _, _ = certificate(self.n, self.ann)
        out, ids = R.call(m.get_list_of_managed_data_IDs)
        ids = [self.rk(x) for x in ids] if out == "ok" else []
        reps = sorted({seg[r - 1] for r in self.order})
        far = [x for r in reps for x in (r, rng.choice([y for y in self.order if seg[y - 1] == r]))]
        pairs = [(x, y) for x in far for y in far] + [tuple(rng.sample(self.order, 2)) for _ in range(300)]
        pairs += list(zip(self.order, self.order[1:]))[:100]
        inf = []
        for x, y in pairs:
            o, v = R.call(m.get_inferred_constraint, data_ID1=self.nm(x), data_ID2=self.nm(y))
            inf.append([x, y, R.CODE.get(v, 7) if o == "ok" and (v is None or isinstance(v, str)) else 8])
        o, comps = R.call(m.get_connected_components)
        try:
            comps = [[self.rk(x) for x in c] for c in comps]
        except Exception:
            comps = []
        o, compl = R.call(m.check_completude_of_constraints)
        o, r = R.call(m.get_min_and_max_number_of_clusters)
        try:
            r = [int(r[0]), int(r[1])]
        except Exception:
            r = [-1, -1]
        # annotations that contradict or repeat what is known, and the explanation of the former
        tries, conf = [], []
        clash = {(seg[x - 1], seg[y - 1]) for x, y, t in self.ann if t == 2} | {(seg[y - 1], seg[x - 1]) for x, y, t in self.ann if t == 2}
        for x, y, v in [p for p in inf if p[0] != p[1]][:40] + inf[-60:-40]:
            if x == y:
                continue
            known = 1 if seg[x - 1] == seg[y - 1] else 2 if (seg[x - 1], seg[y - 1]) in clash else 0
            if known:
                o, w = R.call(m.get_list_of_involved_data_IDs_in_a_constraint_conflict, data_ID1=self.nm(x), data_ID2=self.nm(y), constraint_type=R.TYPES[3 - known])
                if len(conf) < 3:
                    conf.append([x, y, 3 - known, [self.rk(z) for z in w] if o == "ok" and isinstance(w, list) else [0]])
                o, w = R.call(m.add_constraint, data_ID1=self.nm(x), data_ID2=self.nm(y), constraint_type=R.TYPES[3 - known])
                tries.append([x, y, 3 - known, o])
                if o == "ok":
                    break
        self.event("bigobs", ids=ids, inf=inf, comps=comps, compl=compl is True, rng=r, tries=tries, conf=conf, after=after)


def manager(rec, rng, prop, opts):
    b = Big(rec, rng, "large manager")
    if not b.build():
        return
    b.obs()
    for step in rng.sample(["cut", "delete", "reload", "extend"], 3):
        if step == "cut":
            x, y, t = rng.choice(b.ann)
            o, v = R.call(b.m.delete_constraint, data_ID1=b.nm(x), data_ID2=b.nm(y))
            if o != "ok":
                rec.fact("C04.large_outcome", False, out=o, v=v)
                return
            b.ann = [a for a in b.ann if {a[0], a[1]} != {x, y}]
            b.obs("C04")
        elif step == "delete":
            z = rng.choice(b.order)
            o, v = R.call(b.m.delete_data_ID, data_ID=b.nm(z))
            if o != "ok":
                rec.fact("C04.large_outcome", False, out=o, v=v)
                return
            b.ann = [a for a in b.ann if z not in a[:2]]
            b.order = [x for x in b.order if x != z]
            b.obs("C04")
        elif step == "extend":
            for _ in range(3):
                x, y = rng.sample(b.order, 2)
                seg, _, _ = certificate(b.n, b.ann)
                if seg[x - 1] == seg[y - 1] and not any({a[0], a[1]} == {x, y} for a in b.ann):
                    o, v = R.call(b.m.add_constraint, data_ID1=b.nm(x), data_ID2=b.nm(y), constraint_type="MUST_LINK")
                    if o != "ok":
                        rec.fact("C02.large_outcome", False, out=o, v=v)
                        return
                    b.ann.append((x, y, 1))
            b.obs()
        else:
            from cognitivefactory.interactive_clustering.constraints.binary import load_constraints_manager_from_json
            d = tempfile.mkdtemp(prefix="vlarge")
            try:
                p = os.path.join(d, "m.json")
                o, v = R.call(b.m.to_json, filepath=p)
                if o == "ok":
                    o, v = R.call(load_constraints_manager_from_json, filepath=p)
            finally:
                shutil.rmtree(d, ignore_errors=True)
            if o != "ok":
                rec.fact("C10.large_outcome", False, out=o, v=v)
                return
            b.m = v
            b.obs("C10")


def clustering(rec, rng, prop, opts):
    """One large must-linked group and a few other items, for each algorithm that can afford it."""
    import clu
    algs = {"C14": ["mpckmeans", "kmeans", "hierarchical", "spectral", "affinity_propagation"], "C15": ["kmeans", "hierarchical"],
            "C16": ["affinity_propagation"], "C18": ["mpckmeans", "hierarchical", "kmeans"]}[prop]
    if opts["shard"] >= len(algs):
        return
    alg = algs[opts["shard"]]
    b = Big(rec, rng, "large clustering " + alg, core=rng.randint(1005, 1030))
    if not b.build():
        return
    grid = [[i // 40, i % 40] for i in range(len(b.groups[0]))]
    rng.shuffle(grid)
    vec = [None] * b.n
    for i, r in enumerate(r for g in b.groups for r in g):
        vec[r - 1] = grid[i] if i < len(grid) else [40 + 2 * (i - len(grid)), (i - len(grid)) ** 2]      # group centres all distinct
    vs = clu.to_vectors(b.names, vec, 1)
    par = {"max_iteration": 1} if alg == "mpckmeans" else {}
    nb = None if alg == "affinity_propagation" else len(b.groups)
    model = clu.make_model(alg, par, rng.choice([0, 1, 42]), direct=True)
    out, v = R.call(model.cluster, constraints_manager=b.m, vectors=vs, nb_clusters=nb)
    if out == "timeout":
        return
    lab, keysok = [-1] * b.n, False
    if out == "ok":
        try:
            keysok = sorted(v) == b.names
            for k, x in v.items():
                lab[b.rank[k] - 1] = int(x)
        except Exception:
            keysok = False
    b.event("bigclu", alg=alg, nb=nb or 0, out=out, keysok=keysok, lab=lab)
