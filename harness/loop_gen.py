"""Interactive annotation sessions driven by a ground truth (C21)."""
import random

import rec as R
from clu import ALGS, SAMPLER_NAMES, CSession, universe, distinct_vec, gen_vec, domain

FINAL = ["kmeans", "hierarchical", "spectral"]


def partitions(n):
    """Every partition of n items, as restricted growth strings."""
    out = [[0]]
    for _ in range(n - 1):
        out = [p + [b] for p in out for b in range(max(p) + 2)]
    return out


def every_loop(big=False):
    """Every ground truth of 3 and 4 (5) items x sampler x batch x algorithm x kind of vectors."""
    return [(t, smp, batch, alg, agree) for n in ((3, 4, 5) if big else (3, 4)) for t in partitions(n) for smp in SAMPLER_NAMES for batch in (1, 2)
            for alg in ("kmeans", "hierarchical") for agree in (True, False)]


def exhaustive_session(rec, rng, prop, opts):
    cases = every_loop(opts.get("big", False))
    i = opts["shard"] + opts["shards"] * opts["index"]
    if i < len(cases):
        truth, smp, batch, alg, agree = cases[i]
        n = len(truth)
        vec = [[10 * t + i % 3, 7 * (t % 2) - i % 2] for i, t in enumerate(truth)] if agree else distinct_vec(rng, n, 2, 5)
        run_loop(rec, rng, n, max(truth) + 1, truth, vec, alg, smp, batch)


def loop_session(rec, rng, prop, opts):
    n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8]) if rng.random() < 0.9 else rng.randint(9, 12)
    if opts["index"] == 0:
        n = rng.randint(16, 34)
    k = rng.choice([1, 2, 2, 3, 3, 4, n])
    truth = [rng.randrange(k) for _ in range(n)]
    vec = gen_vec(rng, n) if rng.random() < 0.5 else distinct_vec(rng, n, 2, 12)
    if rng.random() < 0.4:        # vectors that agree with the truth
        vec = [[10 * t + rng.randint(-1, 1), 7 * (t % 2) + rng.randint(-1, 1)] for t in truth]
    alg = rng.choice(["kmeans", "hierarchical", "spectral", "dbscan", "affinity_propagation"])
    smp = rng.choice(list(SAMPLER_NAMES))
    batch = rng.choice([1, 1, 2, 3, 5, n * n])
    run_loop(rec, rng, n, k, truth, vec, alg, smp, batch)


def run_loop(rec, rng, n, k, truth, vec, alg, smp, batch):
    s = CSession(rec, rng, universe(rng, n), vec, {"kind": "loop", "truth": truth, "alg": alg, "sampler": smp, "batch": batch})
    ranks = list(range(1, n + 1))
    rng.shuffle(ranks)
    s.build(1, ranks, [])
    seed = rng.choice([-1, 0, 42])
    steps, pairs_max = 0, n * (n - 1) // 2
    from cognitivefactory.interactive_clustering.sampling.factory import sampling_factory
    m = 1
    for turn in range(pairs_max + 2):
        o, compl = R.call(s.h[m].check_completude_of_constraints)
        if compl is True or o != "ok":
            break
        lab = [0] * n
        if domain(alg, n, vec, None):
            par = {"dbscan": {"eps": 2.0, "min_samples": 2}}.get(alg, {})
            nb = None if alg in ("dbscan", "affinity_propagation") else max(2, rng.choice([k, 2, 3]))
            out, model, got = s.cluster(m, alg, par, nb, 42, must=True)
            if out == "ok":
                lab = got
        asked = []
        for name in (smp, "random"):
            restr, dist = SAMPLER_NAMES[name]
            out, sampler = R.call(sampling_factory, algorithm=name, random_seed=seed if seed >= 0 else None)
            _, asked = s.sample(m, restr, dist, True, True, batch, lab, seed, sampler=sampler if out == "ok" else None, truth=truth)
            if asked:
                break
        for x, y in asked:
            if not (1 <= x <= n and 1 <= y <= n):
                continue
            s.addc(m, x, y, 1 if truth[x - 1] == truth[y - 1] else 2, truth=truth)
            s.ann[m].append((x, y, 0))
            steps += 1
        if not asked:
            break
        if rng.random() < 0.1 and s.reload(m, m + 1) == "ok":     # interrupted and resumed from the file
            s.order[m + 1], s.ann[m + 1] = s.order[m], s.ann[m]
            m += 1
    o, compl = R.call(s.h[m].check_completude_of_constraints)
    rec.emit(op="loopend", m=m, compl=compl is True, truth=truth, steps=steps)
    kk = len(set(truth))
    for a in FINAL:
        if n >= 2 and (a != "spectral" or (n >= 3 and kk >= 2)):
            out, model, lab = s.cluster(m, a, {}, max(2, kk), rng.choice([0, 1, 42]), must=True, extras=lambda mo, la: dict(truth=truth))


