"""Decide one property: model checking of the specification, replay of its
behaviours into the implementation, validation of recorded sessions by TLC.

usage: check.py PROPERTY [--tier quick|thorough]
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; 2: machinery error.
"""
import argparse, json, multiprocessing as mp, os, random, shutil, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo/src")
import tlc  # noqa: E402
import rec as R  # noqa: E402

NCPU = min(8, os.cpu_count() or 4)


# ---------------------------------------------------------------- recording
def in_repo(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith("/repo/"):
            return True
        tb = tb.tb_next
    return False


def record_shard(args):
    prop, gen_name, shard, count, seed, path, opts, deadline = args
    import gens

    rec = R.Recorder()
    errors = []
    gen = gens.GENERATORS[gen_name]
    done = 0
    for i in range(count):
        if time.time() > deadline or R.timeouts > 3:
            break
        rng = random.Random("%s/%s/%s/%s/%s" % (seed, prop, gen_name, shard, i))
        random.seed(rng.random())
        try:
            gen(rec, rng, prop, dict(opts, shard=shard, index=i, count=count))
        except Exception:
            et, ev, tb = sys.exc_info()
            if in_repo(tb):
                rec.fact("ANY.crash", False, error="".join(traceback.format_exception(et, ev, tb))[-800:])
            else:
                errors.append(traceback.format_exc())
                break
        done += 1
    if "clu" in sys.modules:
        sys.modules["clu"].Worker.close()
    if "text_gen" in sys.modules:
        sys.modules["text_gen"].close()
    with open(path, "w") as f:
        for e in rec.events:
            f.write(json.dumps(e) + "\n")
    return {"path": path, "events": len(rec.events), "sessions": rec.sessions, "kinds": rec.kinds,
            "desc": rec.desc, "errors": errors, "cases": done}


# ------------------------------------------------------------------- main
class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.t0 = time.time()
        self.violations = []
        self.other = {}
        self.models = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events_validated": 0,
                    "replayed_transitions": 0, "event_kinds": {}, "samples": []}
        self.errors = []

    # one violation: clause, explanation, lines of the replay
    def violate(self, clause, what, lines):
        p = clause.split(".")[0]
        if p not in (self.prop, "ANY"):
            self.other[clause] = self.other.get(clause, 0) + 1
            return
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        if len(self.violations) < 3:
            path = os.path.join(d, "%s-%d.ndjson" % (self.prop, len(self.violations) + 1))
            with open(path, "w") as f:
                for x in lines:
                    f.write((x if isinstance(x, str) else json.dumps(x)) + "\n")
            with open(path + ".txt", "w") as f:
                f.write("clause: %s\n%s\n" % (clause, what))
        else:
            path = os.path.join(d, "%s-1.ndjson" % self.prop)
        self.violations.append((clause, path, what))

    def model(self, r, need_ok=True):
        self.cov["states"] += r["states"]
        self.cov["transitions"] += r["transitions"]
        self.models.append({"module": r["module"], "cfg": r["cfg"], "states": r["states"],
                            "transitions": r["transitions"], "wall_s": round(r["wall"], 1)})
        if need_ok and not r["ok"]:
            self.errors.append("TLC did not accept %s/%s:\n%s" % (r["module"], r["cfg"], r["text"][-3000:]))

    def validate(self, shards):
        """Check recorded shards with Trace.tla, NCPU at a time."""
        todo = list(shards)
        running = []
        while todo or running:
            while todo and len(running) < NCPU:
                sh = todo.pop(0)
                running.append((sh, tlc.start("Trace", "Trace.cfg", self.work, env={"TRACE": sh["path"]})))
            sh, h = running.pop(0)
            r = tlc.finish(h)
            if not r["ok"]:
                self.errors.append("trace validation failed on %s:\n%s" % (sh["path"], r["text"][-3000:]))
                keep = os.path.join(VERIF, "replays", "machinery-%s.ndjson" % self.prop)
                os.makedirs(os.path.dirname(keep), exist_ok=True)
                shutil.copy(sh["path"], keep)
                continue
            self.cov["traces_validated_against_impl"] += sh["sessions"]
            self.cov["events_validated"] += sh["events"]
            for k, v in sh["kinds"].items():
                self.cov["event_kinds"][k] = self.cov["event_kinds"].get(k, 0) + v
            fails = [json.loads(x[1:]) for x in r["lines"] if x.startswith("F{")]
            if fails or not self.cov["samples"]:
                evs = [json.loads(x) for x in open(sh["path"])]
                if not self.cov["samples"] and len(evs) > 1:
                    self.cov["samples"].append({"session": sh["desc"][0][1], "events": evs[1:4]})
                seen = 0
                for f in fails:
                    l = f["l"]
                    b = max(i for i in range(l) if evs[i]["op"] == "begin")
                    for c in f["f"]:
                        desc = [d for (line, d) in sh["desc"] if line == b + 1]
                        self.violate(c, "event %d of the session: %s\nsession: %s" % (
                            l - b - 1, json.dumps(evs[l - 1])[:3000], json.dumps(desc)[:2000]), evs[b:l])
                    seen += 1
                    if seen > 500:
                        break

    def record(self, gen_name, shards, count, opts=None, budget=600):
        jobs = [(self.prop, gen_name, i, count, self.seed, os.path.join(self.work, "%s-%d.ndjson" % (gen_name, i)),
                 opts or {}, time.time() + budget) for i in range(shards)]
        with mp.get_context("fork").Pool(min(NCPU, shards)) as pool:
            res = pool.map(record_shard, jobs, chunksize=1)
        for r in res:
            for e in r["errors"]:
                self.errors.append("recording error (%s):\n%s" % (gen_name, e))
        self.cov.setdefault("recorded_cases", {})[gen_name] = sum(r["cases"] for r in res)
        return res

    def trace(self, gen_name, shards, count, opts=None, budget=600):
        self.validate(self.record(gen_name, shards, count, opts, budget))

    def finish(self, level, assumptions):
        wall = time.time() - self.t0
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": dict(self.cov, models=self.models), "assumptions": assumptions, "wall_s": round(wall, 2),
              "violations": len(self.violations)}
        if self.other:
            ev["coverage"]["clauses_of_other_properties_violated"] = self.other
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.work, ignore_errors=True)
        if self.violations:
            shown = set()
            for c, path, what in self.violations:
                if c not in shown:
                    shown.add(c)
                    print("violated clause %s: %s" % (c, what.split("\n")[0][:300]))
            print("VIOLATION property=%s replay=%s" % (self.prop, self.violations[0][1]))
            return 1
        if self.errors:
            print("MACHINERY ERROR\n" + ("%d errors\n" % len(self.errors)) + self.errors[0][-2000:], file=sys.stderr)
            return 2
        print("property %s held: %d model states, %d sessions (%d events) validated, %d transitions replayed, %.1fs" % (
            self.prop, self.cov["states"], self.cov["traces_validated_against_impl"], self.cov["events_validated"],
            self.cov["replayed_transitions"], wall))
        return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import cognitivefactory.interactive_clustering as ic
    assert os.path.realpath(ic.__file__ or list(ic.__path__)[0]).startswith("/repo/src"), "not testing /repo"
    import plans

    run = Run(a.property, "thorough" if a.tier == "thorough" else "quick", seed)
    try:
        plan = plans.PLANS[a.property]
        plan["run"](run, run.tier == "thorough")
        return run.finish(plan["level"], plan["assumptions"])
    except BaseException:
        shutil.rmtree(run.work, ignore_errors=True)
        raise


if __name__ == "__main__":
    sys.exit(main())
