"""Which models, replays and recorded sessions decide which property."""
import tlc, replay_mgr

A_COMMON = ["TLC, the CommunityModules and the Python recorder are trusted",
            "recorded sessions are a seeded sample of the inputs beyond the exhaustively replayed bound"]
T_MGR = ("TLA+ model of the manager checked exhaustively by TLC; every TLC transition replayed into the code; "
         "recorded sessions validated by TLC against the spec")
N_MGR = ("Exhaustive for every operation from every reachable state of up to 4 items (589 states, 42k transitions, all "
         "replayed into the real manager); beyond that, seeded random sessions of up to 10 items judged event by event "
         "by TLC. Trusts TLC and the recorder.")


def manager_plan(prop, full=False, conflicts=False):
    def go(run, thorough):
        h1 = tlc.start("MCManager", "MCManagerEmit.cfg", run.work, workers=1)
        h2 = tlc.start("MCManager", "MCManagerFull.cfg", run.work, workers=3) if full or thorough else None
        h3 = tlc.start("MCLarge", "MCLarge.cfg", run.work, workers=2) if prop == "C01" else None
        shards = run.record("manager", 8, 400 if thorough else 36, budget=300 if thorough else 60)
        shards += run.record("manager_big", 8, 60 if thorough else 7, budget=200 if thorough else 40)
        if prop not in ("C03",):
            shards += run.record("large_manager", 8 if thorough else 2, 6 if thorough else 1, budget=120 if thorough else 40)
        if prop == "C08":
            shards += run.record("graphs", 8, 128 + (400 if thorough else 20), dict(shards=8))
        r = tlc.finish(h1)
        run.model(r)
        states, trans = replay_mgr.replay_all(run, r["lines"], conflicts=conflicts)
        replay_mgr.walks(run, states, trans, 40 if thorough else 6, 400 if thorough else 120)
        run.validate(shards)
        for h in (h2, h3):
            if h:
                run.model(tlc.finish(h))
    return {"run": go, "level": "model_checking", "assumptions": A_COMMON, "technique": T_MGR, "note": N_MGR}


PLANS = {}
NOT_APPLICABLE = {}
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10"):
    PLANS[_p] = manager_plan(_p, full=_p == "C10", conflicts=_p == "C09")


T_TRACE = "TLA+ specification; sessions recorded from the code are validated event by event by TLC against it"


# ------------------------------------------------------------------ sampling
def sampling_plan(prop):
    def go(run, thorough):
        import scen
        h = tlc.start("MCSampling", "MCSampling.cfg", run.work, workers=2)
        shards = run.record("sampling", 8, 400 if thorough else 80, dict(runs=6))
        r = tlc.finish(h)
        run.model(r)
        scen.replay_sampling(run, r["lines"])
        run.validate(shards)
    return {"run": go, "level": "model_checking", "assumptions": A_COMMON,
            "technique": "TLA+ model enumerating every annotation set and clustering of 4 items, all replayed into the sampler; "
                         "recorded sessions validated by TLC",
            "note": "Exhaustive for 4 items: every consistent annotation set, clustering, option combination (7050 states, each replayed "
                    "with several requested numbers and distance restrictions). Beyond that, seeded sessions of up to 11 items judged by TLC."}


for _p in ("C11", "C12", "C13"):
    PLANS[_p] = sampling_plan(_p)

# ---------------------------------------------------------------- clustering
MODELS = {"C14": [("MCLarge", "MCLarge.cfg")], "C15": [("Hier", "Hier.cfg"), ("Cop", "Cop.cfg")], "C17": [("Hier", "Hier.cfg")], "C18": [("Hier", "Hier.cfg")],
          "C19": [("Cop", "Cop.cfg")], "C16": [("Dbscan", "Dbscan.cfg")], "C26": [("Dbscan", "Dbscan.cfg")], "C34": [("MCDbscan", "MCDbscan.cfg")], "C35": [("MCAp", "MCAp.cfg")],
          "C32": [("Mpc", "Mpc.cfg"), ("Mpc", "MpcLive.cfg")]}
DEEP = {"C14": [("MCLarge", "MCLarge.cfg"), ("MCLarge", "MCLarge4.cfg")], "C32": [("Mpc", "MpcAll.cfg"), ("Mpc", "MpcLive.cfg")], "C26": [("Dbscan", "DbscanAll.cfg")], "C34": [("MCDbscan", "MCDbscanAll.cfg")], "C35": [("MCAp", "MCApAll.cfg")]}


def cluster_plan(prop, quick, thorough_n):
    def go(run, thorough):
        import scen
        hs = [tlc.start(m, c, run.work, workers=3) for m, c in (DEEP.get(prop) if thorough else None) or MODELS.get(prop, [])]
        shards = []
        path, n = scen.scenarios(run, (3, 4, 5) if thorough else (3, 4))
        shards += run.record("scenario", 8, (n + 7) // 8 * (3 if thorough else 1), dict(scenarios=path, shards=8),
                             budget=400 if thorough else 100)
        if prop in ("C14", "C15", "C16", "C18"):
            shards += run.record("large_clustering", 5, 3 if thorough else 1, budget=120 if thorough else 40)
        shards += run.record("clustering", 8, thorough_n if thorough else quick, budget=300 if thorough else 60)
        run.validate(shards)
        for h in hs:
            run.model(tlc.finish(h))
    return {"run": go, "level": "model_checking", "assumptions": A_COMMON,
            "technique": "TLA+ models of the algorithms checked by TLC; every constraint scenario enumerated by TLC replayed into the "
                         "code; recorded sessions validated by TLC against the spec",
            "note": "Exhaustive over the 141 states of knowledge of 3 and 4 items (thorough: 2036, up to 5 items) for a rotating choice "
                    "of vectors; beyond that seeded sessions of up to 72 items. Exact integer arithmetic in the oracle."}


for _p in ("C14", "C15", "C16", "C17", "C18", "C19", "C20", "C26", "C28", "C32", "C34", "C35"):
    PLANS[_p] = cluster_plan(_p, {"C15": 80, "C19": 60, "C20": 60, "C32": 320, "C34": 220}.get(_p, 110), 2500 if _p == "C32" else 600)


# --------------------------------------------------------------------- texts
def text_plan(prop, quick, thorough_n):
    def go(run, thorough):
        run.trace("text", 8, thorough_n if thorough else quick)
    return {"run": go, "level": "model_checking", "assumptions": A_COMMON, "technique": T_TRACE,
            "note": "Seeded inputs; each answer of the code is compared by TLC with the value the specification computes."}


for _p, _q, _t in (("C23", 60, 500), ("C24", 36, 400), ("C25", 70, 600), ("C36", 60, 500)):
    PLANS[_p] = text_plan(_p, _q, _t)


# ---------------------------------------------------------------------- loop
def loop_plan():
    def go(run, thorough):
        hs = [tlc.start("Loop", c, run.work, workers=3)
              for c in (("LoopThorough.cfg", "Loop5.cfg") if thorough else ("Loop.cfg", "LoopAny.cfg"))]
        import loop_gen
        shards = run.record("loop", 8, 300 if thorough else 40)
        shards += run.record("every_loop", 8, (len(loop_gen.every_loop(thorough)) + 7) // 8, dict(shards=8, big=thorough))
        run.validate(shards)
        for h in hs:
            run.model(tlc.finish(h))
    return {"run": go, "level": "model_checking", "assumptions": A_COMMON,
            "technique": "TLA+ model of the interactive loop checked by TLC (safety and liveness, any sampler and clustering); "
                         "recorded sessions of the real loop validated by TLC",
            "note": "The model is exhaustive for 4 items (thorough: 5), with an arbitrary clustering and sampler; the real loop runs "
                    "on every ground truth of 3 and 4 items (thorough: 5) with every sampler, and on seeded ground truths of up to 12 items with every sampler and algorithm."}


PLANS["C21"] = loop_plan()


# ---------------------------------------------------------------- parameters
def params_plan():
    def go(run, thorough):
        run.trace("params", 8, 60 if thorough else 8)
    return {"run": go, "level": "model_checking", "assumptions": A_COMMON,
            "technique": "TLA+ specification of every parameter's domain; outcomes of the code on values at and around each bound "
                         "judged by TLC",
            "note": "Every parameter at and around its bounds, for every algorithm; not every value."}


PLANS["C22"] = params_plan()


# ------------------------------------------------------------ opaque IDs, draws
def trace_plan(gen, quick, thorough_n, technique, note):
    def go(run, thorough):
        run.trace(gen, 8, thorough_n if thorough else quick, budget=300 if thorough else 80)
    return {"run": go, "level": "model_checking", "assumptions": A_COMMON, "technique": technique, "note": note}


PLANS["C27"] = trace_plan("naming", 120, 900, "TLA+ specification over ranks of IDs; the same history recorded under two spellings of the IDs, "
                          "both judged by TLC against the same specification state and compared",
                          "Seeded histories of 2 to 16 items under two spellings with the same order; every sampler option and algorithm.")
PLANS["C30"] = trace_plan("equivalent", 90, 700, "TLA+ specification of the knowledge carried by annotations; results recorded under differently worded "
                          "annotations compared by TLC whenever the specification gives them the same knowledge",
                          "Seeded states of knowledge of 2 to 20 items, each under three wordings; every algorithm and sampler option whose answer "
                          "may not depend on the wording.")
PLANS["C31"] = trace_plan("view", 90, 700, "TLA+ specification of what spectral clustering may see (distances of pairs without inferred constraint); recorded "
                          "runs with the same view compared by TLC",
                          "Seeded well-posed problems of 3 to 14 items: items known to each other are mirrored (only their mutual distances change), must-linked items are moved "
                          "onto each other with and without the annotation, and very distant items are annotated as cannot-link.")
PLANS["C33"] = trace_plan("isometry", 200, 1500, "TLA+ specification of the relative position of the items (exact squared distances); results recorded after translations, rotations, "
                          "reversals and exchanges of the axes compared by TLC whenever the specification gives the same distances",
                          "Seeded annotation sets and integer vectors of 2 to 16 items, each under three positions; every algorithm and distance restriction.")
PLANS["C29"] = trace_plan("cover", 70, 400, "TLA+ specification of the eligible pairs; the draws recorded over many seeds must cover all "
                          "the samples the specification allows, judged by TLC",
                          "Seeded manager states and clusterings of up to 40 items; the number of draws is such that a correct uniform draw misses a "
                          "pair with probability below 1e-9.")
