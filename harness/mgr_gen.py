"""Random manager sessions (code -> specification direction) for C01-C10."""
from rec import Session, universe


def manager_session(rec, rng, profile):
    """One session. profile: dict of weights / sizes."""
    n = rng.randint(profile.get("nmin", 2), profile.get("nmax", 8))
    names = universe(rng, n)
    s = Session(rec, rng, names, {"kind": "manager", "profile": profile.get("name", "")})
    order = list(range(1, n + 1))
    rng.shuffle(order)
    start = order[: rng.randint(0 if profile.get("empty", True) else n, n)]
    given = s.new(1, start, via=rng.choice(["class", "factory"]))
    s.new(2, start)                       # quiet twin
    if rng.random() < 0.5:
        s.touch(1, "given", given)
    truth = {x: rng.randrange(rng.choice([1, 2, 3, n])) for x in order}
    live4 = False
    s.obs(1)
    steps = rng.randint(profile.get("smin", 8), profile.get("smax", 30))
    annots = {}                            # driver's own idea, only to pick interesting calls
    for _ in range(steps):
        mgd = [x for x in s.managed(1) if x]
        w = dict(addid=2, delid=1, addc=10, delc=3, bad=2, query=1, confl=2, touch=1, reload=1, fresh=1)
        w.update(profile.get("w", {}))
        op = rng.choices(list(w), list(w.values()))[0]
        args = None
        if op == "addid":
            un = [x for x in order if x not in mgd]
            if not un:
                continue
            args = ("addid", rng.choice(un))
        elif op == "delid":
            if not mgd:
                continue
            args = ("delid", rng.choice(mgd))
        elif op == "addc":
            if len(mgd) < 1:
                continue
            x, y = (rng.choice(mgd), rng.choice(mgd)) if rng.random() < 0.15 or len(mgd) < 2 else rng.sample(mgd, 2)
            if rng.random() < profile.get("consistent", 0.85):
                t = 1 if truth[x] == truth[y] else 2
            else:
                t = rng.choice([1, 2])
            args = ("addc", x, y, t)
        elif op == "delc":
            live = [p for p in annots if p[0] in mgd and p[1] in mgd]
            if live and rng.random() < 0.8:
                x, y = rng.choice(live)
                if rng.random() < 0.5:
                    x, y = y, x
            elif len(mgd) >= 2:
                x, y = rng.sample(mgd, 2) if rng.random() < 0.8 else [rng.choice(mgd)] * 2
            else:
                continue
            args = ("delc", x, y)
        elif op == "bad":
            un = [x for x in order if x not in mgd]
            k = rng.randrange(6)
            if k == 0 and mgd:
                args = ("addid", rng.choice(mgd))
            elif k == 1 and un:
                args = ("delid", rng.choice(un))
            elif k == 2 and un:
                x, y = rng.choice(un), rng.choice(order)
                args = ("addc", x, y, rng.choice([1, 2])) if rng.random() < 0.5 else ("addc", y, x, rng.choice([1, 2]))
            elif k == 3 and un:
                x, y = rng.choice(un), rng.choice(order)
                args = ("delc", x, y) if rng.random() < 0.5 else ("delc", y, x)
            elif k == 4 and len(mgd) >= 2:
                args = ("addc", *rng.sample(mgd, 2), 9)
            elif k == 5 and len(mgd) >= 2:
                # a contradiction, if the real manager says there is one
                x, y = rng.sample(mgd, 2)
                inf = s.h[1].get_inferred_constraint(s.nm(x), s.nm(y))
                if inf is None:
                    continue
                args = ("addc", x, y, 2 if inf == "MUST_LINK" else 1)
            if args is None:
                continue
        elif op == "query":
            x, y = rng.choice(order), rng.choice(order)
            s.query(1, x, y, rng.choice(["added", "inferred"]))
            s.obs(1, rng_too=False)
            continue
        elif op == "confl":
            x, y = rng.choice(order), rng.choice(order)
            if rng.random() < 0.8 and len(mgd) >= 2:
                x, y = rng.choice(mgd), rng.choice(mgd)
            v = s.confl(1, x, y, rng.choice([1, 2, 1, 2, 1, 2, 9]))
            if isinstance(v, list):
                s.tamper(v)
            s.obs(1, rng_too=False)
            continue
        elif op == "touch":
            s.touch(1, rng.choice(["list", "comps"]))
            s.obs(1, rng_too=False)
            continue
        elif op == "reload":
            if s.reload(1, 4) == "ok":
                live4 = True
                s.obs(4)
                s.obs(1, rng_too=False)
                s.twin(1, 4, "C10")
            continue
        elif op == "fresh":
            fresh_twin(s, rng)
            continue
        # mutating call on 1, mirrored on the quiet twin when accepted
        value = rng.choice([None, None, 1.0, 0.5, 0.0, 0.3]) if args[0] == "addc" else None
        if args[0] == "addc":
            out = s.addc(1, *args[1:], value=value)
        else:
            out = getattr(s, args[0])(1, *args[1:])
        if out == "ok":
            getattr(s, args[0])(2, *args[1:])
            if args[0] == "addc" and args[1] != args[2]:
                annots[tuple(sorted(args[1:3]))] = args[3]
            elif args[0] == "delc":
                annots.pop(tuple(sorted(args[1:3])), None)
            elif args[0] == "delid":
                annots = {p: t for p, t in annots.items() if args[1] not in p}
        s.obs(1)
        if live4:
            getattr(s, args[0])(4, *args[1:])
            if rng.random() < 0.4:
                s.obs(4)
                s.twin(1, 4, "C10")
            if rng.random() < 0.1:
                live4 = False
        if args[0] in ("delc", "delid") and rng.random() < profile.get("pfresh", 0.4):
            fresh_twin(s, rng)
        if rng.random() < profile.get("ptwin", 0.3):
            s.obs(2)
            s.twin(1, 2, "C03")
    s.obs(2)
    s.twin(1, 2, "C03")
    if profile.get("allconf") and len(s.managed(1)) <= 6:
        for x in s.managed(1):
            for y in s.managed(1):
                for t in (1, 2):
                    s.confl(1, x, y, t)
        s.obs(1)


def fresh_twin(s, rng):
    """A fresh manager over what remains, annotations given in random order."""
    mgd = s.managed(1)
    if 0 in mgd:
        return
    s.new(3, mgd)
    todo = []
    for i, x in enumerate(mgd):
        for y in mgd[i + 1:]:
            c = s.h[1].get_added_constraint(s.nm(x), s.nm(y))
            if isinstance(c, tuple) and c[0] in ("MUST_LINK", "CANNOT_LINK"):
                todo.append((x, y, 1 if c[0] == "MUST_LINK" else 2))
    rng.shuffle(todo)
    for x, y, t in todo:
        if rng.random() < 0.5:
            x, y = y, x
        s.addc(3, x, y, t)
    s.obs(3, rng_too=False)
    s.obs(1, rng_too=False)
    s.twin(1, 3, "C04")


def big_session(rec, rng, prop):
    """Many items and long histories: large groups, many conflicts between groups, late retractions."""
    n = rng.randint(9, 26) if rng.random() < 0.85 else rng.randint(40, 64)
    names = universe(rng, n)
    s = Session(rec, rng, names, {"kind": "manager", "profile": "big"})
    order = list(range(1, n + 1))
    rng.shuffle(order)
    late = rng.choice([0, 0, 2])
    given = s.new(1, order[: n - late], via=rng.choice(["class", "factory"]))
    if rng.random() < 0.5:
        s.touch(1, "given", given)
    classes = rng.choice([1, 2, 2, 3, 3, 4, 6])
    truth = {x: min(rng.randrange(classes), rng.randrange(classes)) for x in order}
    bias = rng.choice([0.3, 0.5, 0.8])             # share of the must-links among the annotations
    annots = []
    steps = rng.randint(n, 3 * n)
    for i in range(steps):
        mgd = s.managed(1)
        if 0 in mgd or len(mgd) < 2:
            break
        r = rng.random()
        rejected = False
        if r < 0.03 and any(x not in mgd for x in order):
            s.addid(1, rng.choice([x for x in order if x not in mgd]))
        elif r < 0.05:
            x = rng.choice(mgd)
            s.delid(1, x)
            annots = [a for a in annots if x not in a]
        elif r < 0.11 and annots:
            x, y = annots.pop(rng.randrange(len(annots)))
            s.delc(1, *rng.choice([(x, y), (y, x)]))
            if rng.random() < 0.3:
                fresh_twin(s, rng)
        else:
            x, y = rng.sample(mgd, 2)
            for _ in range(20):
                if (truth[x] == truth[y]) == (rng.random() < bias):
                    break
                x, y = rng.sample(mgd, 2)
            t = 1 if truth[x] == truth[y] else 2
            if rng.random() < 0.05:
                t = 3 - t
            rejected = s.addc(1, x, y, t) != "ok"
            if not rejected:
                annots.append((x, y))
        if (rejected or rng.random() < 0.15) and (n < 40 or rng.random() < 0.2):
            s.obs(1)
            for _ in range(3):
                s.confl(1, *rng.sample(mgd, 2), rng.choice([1, 2]))
    if prop in ("C03", "C10") or rng.random() < 0.3:
        s.touch(1, rng.choice(["list", "comps"]))
        s.obs(1, rng_too=False)
        if s.reload(1, 4) == "ok":
            s.obs(4, rng_too=False)
            s.twin(1, 4, "C10")
    s.obs(1)
    fresh_twin(s, rng)


PROFILES = {
    "C01": dict(name="closure", nmin=3, nmax=9, smin=10, smax=40, w=dict(addc=16, delc=3)),
    "C02": dict(name="conflict", nmin=2, nmax=8, consistent=0.6, w=dict(addc=16, bad=4)),
    "C03": dict(name="rejected", nmin=2, nmax=7, consistent=0.7, ptwin=1.0, w=dict(bad=10, touch=4, query=4, confl=4, delc=4)),
    "C04": dict(name="retract", nmin=3, nmax=8, pfresh=1.0, w=dict(delc=8, delid=4, addid=4, addc=12)),
    "C05": dict(name="book", nmin=1, nmax=8, w=dict(addid=6, delid=4, bad=5, query=4)),
    "C06": dict(name="groups", nmin=2, nmax=10, smin=10, smax=40, consistent=0.95, w=dict(addc=16, delc=3)),
    "C07": dict(name="complete", nmin=1, nmax=5, smin=10, smax=40, consistent=1.0, w=dict(addc=20, delc=2, delid=2)),
    "C08": dict(name="range", nmin=3, nmax=10, smin=10, smax=40, consistent=0.9, w=dict(addc=20, delc=2)),
    "C09": dict(name="explain", nmin=2, nmax=7, consistent=0.9, allconf=True, w=dict(confl=8)),
    "C10": dict(name="reload", nmin=2, nmax=8, w=dict(reload=6, delc=4, delid=3)),
}


def conflict_graphs(rec, rng, opts):
    """Every conflict graph between five groups (shard by shard), then random ones between 6 to 9 groups."""
    shard, i, count = opts["shard"], opts["index"], opts["count"]
    per = 1024 // opts["shards"]
    if i < per:
        g, code = 5, shard * per + i
        edges = [p for b, p in enumerate((x, y) for x in range(g) for y in range(x)) if code >> b & 1]
    else:
        g = rng.randint(6, 9) if rng.random() < 0.6 else rng.randint(10, 40)
        dens = rng.choice([0.2, 0.5, 0.8])
        edges = [(x, y) for x in range(g) for y in range(x) if rng.random() < dens]
    if g > 9:                              # some groups in conflict two by two
        q = rng.sample(range(g), rng.randint(2, 8))
        edges = sorted({*(e for e in edges if g <= 14 or rng.random() < 0.4), *((max(x, y), min(x, y)) for x in q for y in q if x != y)})
    sizes = [1] * g if rng.random() < 0.5 else [rng.choice([1, 1, 2, 3]) for _ in range(g)]
    n = sum(sizes)
    s = Session(rec, rng, universe(rng, n), {"kind": "conflict graph", "edges": edges, "sizes": sizes})
    ranks = list(range(1, n + 1))
    rng.shuffle(ranks)
    groups, k = [], 0
    for z in sizes:
        groups.append(ranks[k:k + z])
        k += z
    order = ranks[:]
    rng.shuffle(order)
    s.new(1, order)
    calls = [(a, b, 1) for gr in groups for a, b in zip(gr, gr[1:])]
    calls += [(rng.choice(groups[x]), rng.choice(groups[y]), 2) for x, y in edges]
    rng.shuffle(calls)
    for c in calls:
        s.addc(1, *c)
    s.obs(1)
