"""Registry of session generators: name -> f(rec, rng, prop, opts)."""
import mgr_gen


def manager(rec, rng, prop, opts):
    mgr_gen.manager_session(rec, rng, mgr_gen.PROFILES[opts.get("profile", prop)])


def manager_big(rec, rng, prop, opts):
    mgr_gen.big_session(rec, rng, prop)


def graphs(rec, rng, prop, opts):
    mgr_gen.conflict_graphs(rec, rng, opts)


def sampling(rec, rng, prop, opts):
    import clu
    clu.sampling_session(rec, rng, prop, opts)


def clustering(rec, rng, prop, opts):
    import clu
    clu.cluster_session(rec, rng, prop, opts)


def text(rec, rng, prop, opts):
    import text_gen as T
    f = {"C23": T.freq_session, "C24": T.prep_session, "C36": T.rename_session,
         "C25": T.tfidf_session if rng.random() < 0.7 else T.spvec_session}[prop]
    f(rec, rng, prop, opts)


def loop(rec, rng, prop, opts):
    import loop_gen
    loop_gen.loop_session(rec, rng, prop, opts)


def every_loop(rec, rng, prop, opts):
    import loop_gen
    loop_gen.exhaustive_session(rec, rng, prop, opts)


def params(rec, rng, prop, opts):
    import param_gen
    param_gen.param_session(rec, rng, prop, opts)


def scenario(rec, rng, prop, opts):
    import scen
    scen.scenario_session(rec, rng, prop, opts)


def naming(rec, rng, prop, opts):
    import clu
    clu.naming_session(rec, rng, prop, opts)


def cover(rec, rng, prop, opts):
    import clu
    clu.cover_session(rec, rng, prop, opts)


def equivalent(rec, rng, prop, opts):
    import clu
    clu.equivalent_session(rec, rng, prop, opts)


def view(rec, rng, prop, opts):
    import clu
    clu.view_session(rec, rng, prop, opts)


def large_manager(rec, rng, prop, opts):
    import large_gen
    large_gen.manager(rec, rng, prop, opts)


def large_clustering(rec, rng, prop, opts):
    import large_gen
    large_gen.clustering(rec, rng, prop, opts)


def isometry(rec, rng, prop, opts):
    import clu
    clu.isometry_session(rec, rng, prop, opts)


GENERATORS = {"isometry": isometry, "large_manager": large_manager, "large_clustering": large_clustering, "equivalent": equivalent, "view": view, "every_loop": every_loop, "cover": cover, "naming": naming, "scenario": scenario, "loop": loop, "params": params, "text": text, "clustering": clustering, "manager": manager, "manager_big": manager_big, "graphs": graphs, "sampling": sampling}
