"""Replay of every transition of spec/Manager.tla into the implementation."""
import copy, json, multiprocessing as mp, random, sys, traceback
import rec as R
from check import in_repo

NAMESETS = [["a", "b", "c", "d", "e"], ["10", "2", "9", "A", "é"], ["", " ", "\n", "名", "😀"]]


def parse(lines):
    states, trans = {}, []
    for x in lines:
        if x[0] == "S":
            o = json.loads(x[1:])
            states[(frozenset(o["ids"]), frozenset(map(tuple, o["A"])))] = o
        elif x[0] == "T":
            trans.append(json.loads(x[1:]))
    return states, trans


def skey(s):
    return (tuple(s["ids"]), tuple(sorted(map(tuple, s["A"]))))


def vkey(s):
    return (frozenset(s["ids"]), frozenset(map(tuple, s["A"])))


def apply(mgr, ev, nm):
    op = ev["op"]
    if op == "addid":
        return R.call(mgr.add_data_ID, data_ID=nm[ev["x"]])
    if op == "delid":
        return R.call(mgr.delete_data_ID, data_ID=nm[ev["x"]])
    if op == "addc":
        return R.call(mgr.add_constraint, data_ID1=nm[ev["x"]], data_ID2=nm[ev["y"]], constraint_type=R.TYPES[ev["t"]])
    if op == "delc":
        return R.call(mgr.delete_constraint, data_ID1=nm[ev["x"]], data_ID2=nm[ev["y"]])
    raise AssertionError(op)


def compare(mgr, want_ids, o, nm, rk):
    """Clauses on which the implementation disagrees with the state o of the specification."""
    bad = []
    out, names = R.call(mgr.get_list_of_managed_data_IDs)
    if out != "ok" or [rk.get(x, 0) for x in names] != list(want_ids):
        bad.append("C05.managed_items")
        if out != "ok" or set(rk.get(x, 0) for x in names) != set(want_ids):
            return bad
    ids = o["ids"]
    A = {(a[0], a[1]): a[2] for a in o["A"]}
    for i, x in enumerate(ids):
        for j, y in enumerate(ids):
            out, v = R.call(mgr.get_inferred_constraint, nm[x], nm[y])
            if out != "ok" or R.CODE.get(v, 7) != o["inf"][i][j]:
                bad.append("C01.inferred")
            if x != y:
                out, v = R.call(mgr.get_added_constraint, nm[x], nm[y])
                t = A.get((min(x, y), max(x, y)), 0)
                if out != "ok" or v != (None if t == 0 else (R.TYPES[t], 1.0)):
                    bad.append("C05.annotations")
    out, comps = R.call(mgr.get_connected_components)
    rep = {}
    for x, r in zip(ids, o["groups"]):
        rep.setdefault(r, set()).add(x)
    try:
        got = sorted(sorted(rk.get(z, 0) for z in c) for c in comps)
    except Exception:
        got = None
    if got != sorted(sorted(g) for g in rep.values()):
        bad.append("C06.groups")
    out, c = R.call(mgr.check_completude_of_constraints)
    if c is not o["complete"]:
        bad.append("C07.complete")
    if o["maxn"] >= 2:
        out, r = R.call(mgr.get_min_and_max_number_of_clusters)
        if out != "ok" or tuple(r) != (max(2, o["chrom"]), o["maxn"]):
            bad.append("C08.range")
    return sorted(set(bad))


def compare_conflicts(mgr, o, nm, rk):
    conf = {tuple(c) for c in o["conflicts"]}
    grp = dict(zip(o["ids"], o["groups"]))
    for x in o["ids"]:
        for y in o["ids"]:
            for t in (1, 2):
                out, v = R.call(mgr.get_list_of_involved_data_IDs_in_a_constraint_conflict, nm[x], nm[y], R.TYPES[t])
                want = sorted(z for z in o["ids"] if grp[z] in (grp[x], grp[y])) if (x, y, t) in conf else None
                try:
                    got = None if v is None else sorted(rk.get(z, 0) for z in v)
                except Exception:
                    got = "?"
                if out != "ok" or got != want:
                    return ["C09.involved_groups"]
    return []


def _part(args):
    states, trans, part, parts, seed, conflicts = args
    from cognitivefactory.interactive_clustering.constraints.binary import BinaryConstraintsManager

    bad, n = [], 0
    nm = dict(enumerate(sorted(NAMESETS[seed % len(NAMESETS)]), 1))
    rk = {v: i for i, v in nm.items()}
    # transitions come in BFS order: keep one real manager per specification state
    real = {((), ()): BinaryConstraintsManager(list_of_data_IDs=[])}
    hist = {((), ()): []}
    for i, t in enumerate(trans):
        pre, post = skey(t["pre"]), skey(t["post"])
        mine = i % parts == part
        if not mine and post in real:
            continue
        if pre not in real:
            continue
        mgr = copy.deepcopy(real[pre])
        try:
            out, v = apply(mgr, t["ev"], nm)
            if out == "ok" and v is not True:
                out = "returned"
            fails = []
            ev = t["ev"]
            if mine:
                n += 1
                if out != ev["out"]:
                    wf = ev["op"] == "addc" and ev["x"] in t["pre"]["ids"] and ev["y"] in t["pre"]["ids"] and ev["t"] != 9
                    fails.append("C02.outcome" if wf else "C05.outcome")
                    if ev["op"] in ("delc", "delid") and ev["out"] == "ok":
                        fails.append("C04.outcome")
                o = states[vkey(t["post"])]
                obs = compare(mgr, t["post"]["ids"], o, nm, rk)
                if conflicts and not obs:
                    obs += compare_conflicts(mgr, o, nm, rk)
                if obs and out == ev["out"]:
                    # the state before the call agreed with the specification
                    if ev["out"] == "ValueError":
                        obs.append("C03.unchanged")
                    elif ev["op"] in ("delc", "delid", "addid"):
                        obs.append("C04.retraction")
                fails += obs
                if fails:
                    bad.append((fails, "after %s from %s (path %s)" % (json.dumps(ev), t["pre"], hist[pre]), [t]))
                    if len(bad) > 50:
                        break
            if post not in real and out == ev["out"]:
                real[post] = mgr
                hist[post] = hist[pre] + [[ev["op"], ev["x"], ev["y"], ev["t"]]]
        except Exception:
            et, e2, tb = sys.exc_info()
            if not in_repo(tb):
                return n, bad, traceback.format_exc()
            bad.append((["ANY.crash"], traceback.format_exc()[-500:], [t]))
    return n, bad, None


def replay_all(run, lines, conflicts=False, parts=8, offset=0):
    states, trans = parse(lines)
    with mp.get_context("fork").Pool(parts) as pool:
        res = pool.map(_part, [(states, trans, p, parts, run.seed + offset, conflicts) for p in range(parts)], chunksize=1)
    for n, bad, err in res:
        run.cov["replayed_transitions"] += n
        if err:
            run.errors.append(err)
        for fails, what, ls in bad:
            for f in fails:
                run.violate(f, "replayed transition: " + what, ls)
    run.cov["specification_states_replayed"] = len(states)
    return states, trans


def walks(run, states, trans, count, length):
    """Long walks of the specification's graph on one real object."""
    from cognitivefactory.interactive_clustering.constraints.binary import BinaryConstraintsManager

    out_edges = {}
    for t in trans:
        out_edges.setdefault(vkey(t["pre"]), []).append(t)
    for w in range(count):
        rng = random.Random("walk/%s/%s" % (run.seed, w))
        nm = dict(enumerate(sorted(NAMESETS[w % len(NAMESETS)]), 1))
        rk = {v: i for i, v in nm.items()}
        mgr = BinaryConstraintsManager(list_of_data_IDs=[])
        cur, ids, path = (frozenset(), frozenset()), [], []
        for step in range(length):
            t = rng.choice(out_edges[cur])
            ev = t["ev"]
            if ev["out"] == "ValueError" and rng.random() < 0.6:
                continue
            path.append([ev["op"], ev["x"], ev["y"], ev["t"]])
            out, v = apply(mgr, ev, nm)
            if ev["out"] == "ok" and ev["op"] == "addid":
                ids = ids + [ev["x"]]
            if ev["out"] == "ok" and ev["op"] == "delid":
                ids = [z for z in ids if z != ev["x"]]
            nxt = vkey(t["post"])
            fails = [] if out == ev["out"] else ["C02.outcome" if ev["op"] == "addc" else "C05.outcome"]
            obs = compare(mgr, ids, states[nxt], nm, rk)
            if obs and ev["out"] == "ValueError":
                obs.append("C03.unchanged")
            if obs and ev["op"] in ("delc", "delid", "addid"):
                obs.append("C04.retraction")
            for f in fails + obs:
                run.violate(f, "walk %d step %d: %s" % (w, step, json.dumps(path[-6:])), [{"walk": path, "names": nm}])
            run.cov["replayed_transitions"] += 1
            if fails or obs:
                break
            cur = nxt
