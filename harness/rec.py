"""Recording sessions of the implementation as events for spec/Trace.tla."""
import copy, json, os, random, shutil, signal, sys, tempfile, warnings

warnings.simplefilter("ignore")
ML, CL = "MUST_LINK", "CANNOT_LINK"
TYPES = {1: ML, 2: CL, 9: "MAYBE_LINK"}
CODE = {None: 0, ML: 1, CL: 2}
CASE_TIMEOUT = 60
timeouts = 0  # calls of this process that did not return in time


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def call(fn, *a, **kw):
    """Run one API call; returns (outcome, value). Total: no exception escapes."""
    global timeouts
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT if timeouts < 2 else 10)
    try:
        v = fn(*a, **kw)
        return "ok", v
    except CaseTimeout:
        timeouts += 1
        return "timeout", None
    except ValueError as err:
        return "ValueError", err
    except Exception as err:  # noqa
        return type(err).__name__, err
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


WEIRD = ["", " ", "a b", "A", "a", "é", "É", "名", "\n", '"', "\\", "'", "0", "00", "-1", "10", "2", "None", "NONE",
         "null", "MUST_LINK", "\u2028", "😀", "z\tz", "{}", "[1]", "MUST_LINK ", "ß", "%s", "0.5", "1e3", "true"]


BASES = ["a", "1", "é", "ab", "10", "x y", "A_1", "ß", "00", "none", "q-2", "x,y", "(1, 2)"]


def variants(b):
    """Distinct strings that a careless normalisation would confuse with b."""
    import unicodedata
    out = [b, " " + b, b + " ", b.upper(), b.capitalize(), b + "\n", "0" + b, b + ".0", b + b, b + "_" + b, '"' + b + '"', b + "\u0301",
           unicodedata.normalize("NFD", b), b + "\u200b", "-" + b, b[::-1], b + "|" + b, b + "," + b, b + "0", b + "é" * 40]
    return list(dict.fromkeys(out))


def universe(rng, n, weird=True):
    """n distinct ID strings of one of several styles (unsorted)."""
    style = rng.randrange(6 if weird else 4) if n <= 100 else 2
    if style == 5:
        names = []
        for b in rng.sample(BASES, len(BASES)):
            v = variants(b)
            names += [x for x in rng.sample(v, min(len(v), rng.randint(2, 9))) if x not in names]
        names = names[:n]
        style = 5 if len(names) == n else 0
    if style == 5:
        rng.shuffle(names)
        return names
    if style == 0:
        names = [str(i) for i in range(n)]
    elif style == 1:
        names = [str(i) for i in rng.sample(range(7, 130), n)]
    elif style == 2:
        names = [rng.choice("abXYé") + str(i) for i in range(n)]
    elif style == 3:
        names = ["".join(rng.choice("abcAB01_") for _ in range(1 + i % 4)) + chr(65 + i) for i in range(n)]
    else:
        names = rng.sample(WEIRD, n) if n <= len(WEIRD) else WEIRD + ["w%d" % i for i in range(n - len(WEIRD))]
    rng.shuffle(names)
    return names


class Recorder:
    """Collects events; one session = one 'begin' event and what follows."""

    def __init__(self):
        self.events = []
        self.sessions = 0
        self.desc = []
        self.kinds = {}

    def begin(self, desc):
        self.sessions += 1
        self.cur_desc = desc
        self.events.append({"op": "begin"})
        self.desc.append((len(self.events), desc))

    def emit(self, **ev):
        self.kinds[ev["op"]] = self.kinds.get(ev["op"], 0) + 1
        self.events.append(ev)

    def fact(self, tag, ok, **info):
        self.emit(op="fact", tag=tag, ok=bool(ok), info={k: repr(v)[:300] for k, v in info.items()})


class Session:
    """A session over a universe of IDs and several managers (handles)."""

    def __init__(self, rec, rng, names, desc=None, cont=False):
        self.rec, self.rng = rec, rng
        self.names = sorted(names)
        self.rank = {x: i + 1 for i, x in enumerate(self.names)}
        self.h = {}
        self.ids = {}
        self.clean = {}
        if not cont:                   # otherwise: other spellings of the IDs, in the same session
            rec.begin(dict(desc or {}, names=self.names))

    def nm(self, r):
        return self.names[r - 1]

    def rk(self, x):
        try:
            return self.rank.get(x, 0)
        except TypeError:
            return 0

    # -- mutating calls -------------------------------------------------------
    def new(self, m, ranks, via="class"):
        from cognitivefactory.interactive_clustering.constraints.binary import BinaryConstraintsManager
        from cognitivefactory.interactive_clustering.constraints.factory import managing_factory

        lst = [self.nm(r) for r in ranks]
        if via == "class":
            out, v = call(BinaryConstraintsManager, list_of_data_IDs=lst)
        else:
            out, v = call(managing_factory, list_of_data_IDs=lst, manager="binary")
        self.h[m] = v if out == "ok" else None
        self.rec.emit(op="new", m=m, ids=list(ranks), out=out)
        self.clean[m] = False
        return lst

    def _mut(self, m, op, fn, args, **ev):
        out, v = call(fn, **args)
        if out == "ok" and v is not True:
            out = "returned_" + type(v).__name__
        self.rec.emit(op=op, m=m, out=out, **ev)
        if out != "ValueError":
            self.clean[m] = False
        return out

    def addid(self, m, x):
        return self._mut(m, "addid", self.h[m].add_data_ID, dict(data_ID=self.nm(x)), x=x)

    def delid(self, m, x):
        return self._mut(m, "delid", self.h[m].delete_data_ID, dict(data_ID=self.nm(x)), x=x)

    def addc(self, m, x, y, t, value=None, **ev):
        a = dict(data_ID1=self.nm(x), data_ID2=self.nm(y), constraint_type=TYPES[t])
        if value is not None:
            a["constraint_value"] = value
        return self._mut(m, "addc", self.h[m].add_constraint, a, x=x, y=y, t=t, **ev)

    def delc(self, m, x, y):
        return self._mut(m, "delc", self.h[m].delete_constraint, dict(data_ID1=self.nm(x), data_ID2=self.nm(y)), x=x, y=y)

    def reload(self, m, d):
        from cognitivefactory.interactive_clustering.constraints.binary import load_constraints_manager_from_json

        rng = self.rng
        d0 = tempfile.mkdtemp(prefix="vmgr")
        path = os.path.join(d0, rng.choice(["m.json", "m", "a b é.json", "constraint_manager.json"]))
        mgr = self.h[m]
        try:
            r = rng.random()
            if r < 0.25:                   # a file is already there: another manager's, or something else
                with open(path, "w") as f:
                    f.write("[" + "1, " * rng.choice([0, 5000]))
            elif r < 0.4:
                from cognitivefactory.interactive_clustering.constraints.binary import BinaryConstraintsManager
                big = BinaryConstraintsManager(list_of_data_IDs=["q%d" % i for i in range(40)])
                big.add_constraint("q1", "q2", "CANNOT_LINK")
                big.to_json(filepath=path)
            elif r < 0.5:
                call(mgr.to_json, filepath=path)
            out, v = call(mgr.to_json, filepath=path)
            if out == "ok" and v is not True:
                out = "returned_" + type(v).__name__
            if out == "ok":
                k = rng.choice([1, 1, 1, 2])
                for _ in range(k):         # restored copies can be saved in turn
                    out, v = call(load_constraints_manager_from_json, filepath=path)
                    if out != "ok":
                        break
                    if k == 2:
                        out, _v = call(v.to_json, filepath=path)
                        if out != "ok":
                            break
        finally:
            shutil.rmtree(d0, ignore_errors=True)
        if out == "ok":
            self.h[d] = v
            self.clean[d] = False
        self.rec.emit(op="reload", m=m, d=d, out=out)
        return out

    # -- observations ---------------------------------------------------------
    def managed(self, m):
        return [self.rk(x) for x in self.h[m].get_list_of_managed_data_IDs()]

    def obs(self, m, rng_too=True, twin=None):
        mgr, rec = self.h[m], self.rec
        out, names = call(mgr.get_list_of_managed_data_IDs)
        if out != "ok" or not isinstance(names, list):
            rec.fact("C05.list_getter", False, out=out, v=names)
            return False
        n = len(names)
        add = [[0] * n for _ in names]
        inf = [[0] * n for _ in names]
        val = True
        th = self.rng.choice([{}, {}, {"threshold": 1.0}, {"threshold": 0.5}, {"threshold": 0.0}])     # binary knowledge: no influence
        for i, x in enumerate(names):
            for j, y in enumerate(names):
                o, v = call(mgr.get_inferred_constraint, data_ID1=x, data_ID2=y, **th)
                inf[i][j] = CODE.get(v, 7) if o == "ok" and (v is None or isinstance(v, str)) else 8
                if i != j:
                    o, v = call(mgr.get_added_constraint, data_ID1=x, data_ID2=y)
                    if o == "ok" and v is None:
                        add[i][j] = 0
                    elif o == "ok" and isinstance(v, tuple) and len(v) == 2:
                        add[i][j] = CODE.get(v[0], 7)
                        val = val and v[1] == 1.0
                    else:
                        add[i][j] = 8
        o, comps = call(mgr.get_connected_components, **th)
        try:
            comps = [[self.rk(x) for x in c] for c in comps]
        except Exception:
            comps = [[0]]
        o, compl = call(mgr.check_completude_of_constraints, **th)
        if o != "ok" or not isinstance(compl, bool):
            rec.fact("C07.getter", False, out=o, v=compl)
            compl = False
        ev = dict(op="obs", m=m, ids=[self.rk(x) for x in names], add=add, inf=inf, val=bool(val), comps=comps,
                  compl=compl, quiet=bool(self.clean.get(m, False)))
        if rng_too and len(comps) >= 2:
            o, r = call(mgr.get_min_and_max_number_of_clusters, **th)
            try:
                ev["rng"] = [int(r[0]), int(r[1])]
            except Exception:
                ev["rng"] = [-1, -1]
            if len(comps) > 14:            # too many for the search of a colouring: a lower bound
                ev["clique"] = self.clique(ev["ids"], inf)
        rec.emit(**ev)
        self.clean[m] = True
        return True

    def clique(self, ids, inf):
        best = []
        for first in self.rng.sample(range(len(ids)), min(len(ids), 12)):
            c = [first]
            for j in self.rng.sample(range(len(ids)), len(ids)):
                if all(inf[i][j] == 2 for i in c):
                    c.append(j)
            best = max(best, c, key=len)
        return [ids[i] for i in best]

    def twin(self, a, b, tag):
        self.rec.emit(op="twin", a=a, b=b, tag=tag)

    def query(self, m, x, y, fn):
        f = self.h[m].get_added_constraint if fn == "added" else self.h[m].get_inferred_constraint
        out, v = call(f, data_ID1=self.nm(x), data_ID2=self.nm(y))
        self.rec.emit(op="query", m=m, x=x, y=y, out=out)

    def confl(self, m, x, y, t):
        out, v = call(self.h[m].get_list_of_involved_data_IDs_in_a_constraint_conflict,
                      data_ID1=self.nm(x), data_ID2=self.nm(y), constraint_type=TYPES[t])
        items, some = [], False
        if out == "ok" and v is not None:
            some = True
            try:
                items = [self.rk(z) for z in v]
            except Exception:
                items = [0]
        self.rec.emit(op="confl", m=m, x=x, y=y, t=t, out=out, some=some, items=items)
        return v

    # mutate what was handed out / given
    def tamper(self, v):
        """Some in-place change of a list (of the caller's), length-preserving or not."""
        k = self.rng.randrange(7)
        if k == 0:
            v.append("intruder")
        elif k == 1:
            v.reverse()
        elif k == 2 and v:
            v[self.rng.randrange(len(v))] = "intruder"
        elif k == 3 and v:
            v.pop(self.rng.randrange(len(v)))
        elif k == 4:
            v.clear()
        elif k == 5 and len(v) > 1:
            v[0], v[-1] = v[-1], v[0]
        else:
            v.insert(0, "intruder")
            v[1:2] = []

    def touch(self, m, what, given=None):
        mgr = self.h[m]
        try:
            if what == "list":
                self.tamper(mgr.get_list_of_managed_data_IDs())
            elif what == "comps":
                v = mgr.get_connected_components()
                for c in v:
                    self.tamper(c)
                if self.rng.random() < 0.5:
                    self.tamper(v)
            elif what == "given" and given is not None:
                self.tamper(given)
        except Exception:
            pass
