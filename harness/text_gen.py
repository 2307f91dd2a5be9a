"""Frequency tables, preprocessing and vectorisation sessions (C23, C24, C25)."""
import copy, itertools, math, os, shutil, tempfile, unicodedata

import numpy as np

import rec as R

# ------------------------------------------------------------------ frequency


def exact(x, n):
    """The fraction num/den a float stands for (den at most 4n), or <<-1, 1>> when it is not that close to one."""
    from fractions import Fraction
    f = Fraction(float(x)).limit_denominator(max(4 * n, 100))
    if abs(float(f) - float(x)) > 1e-12:
        return [-1, 1]
    return [f.numerator, f.denominator]


def freq_session(rec, rng, prop, opts):
    from cognitivefactory.interactive_clustering.utils.frequency import compute_clusters_frequency
    rec.begin({"kind": "frequency"})
    small = []
    if opts.get("index") == 0:          # every clustering of at most five items with labels -1 to 2
        small = [t for k in range(6) for t in itertools.product((-1, 0, 1, 2), repeat=k)][opts["shard"]::8]
    for it in range(opts.get("runs", 8) + len(small)):
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 13, 30, 101, 1000])
        pool = rng.choice([[0], [0, 1], [0, 1, 2, 3], [-2, -1, 0, 1], list(range(-3, 40)), [10, 9, 100, -10, 2], [-1], [7, 2 ** 30, -2 ** 30], list(range(200, 0, -1))])
        names = ["k%d" % i for i in range(n)]
        rng.shuffle(names)
        d = {k: rng.choice(pool) for k in names}
        if it < len(small):
            n = len(small[it])
            d = {"k%d" % i: x for i, x in enumerate(small[it])}
        elif rng.random() < 0.2:
            d = {k: np.int64(x) for k, x in d.items()}
        before = list(d.items())
        out, v = R.call(compute_clusters_frequency, clustering_result=d)
        tab = []
        if out == "ok":
            try:
                tab = [[int(k)] + exact(x, n) for k, x in v.items()]
                if any(isinstance(k, bool) or int(k) != k for k in v):
                    tab = [[-999, 0, 1]]
            except Exception:
                tab = [[-999, 0, 1]]
        rec.emit(op="freq", lab=[int(x) for _, x in before], tab=tab, out=out, same=before == list(d.items()))
        if out == "ok" and isinstance(v, dict):
            v.clear()


def rename_session(rec, rng, prop, opts):
    from cognitivefactory.interactive_clustering.clustering.abstract import rename_clusters_by_order
    rec.begin({"kind": "renumbering"})
    small = []
    if opts.get("index") == 0:          # every clustering of at most five items with labels -1 to 2
        small = [t for k in range(6) for t in itertools.product((-1, 0, 1, 2), repeat=k)][opts["shard"]::8]
    for it in range(opts.get("runs", 8) + len(small)):
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 13, 30, 60, 101, 300])
        pool = rng.choice([[0], [0, 1], [0, 1, 2, 3], [-2, -1, 0, 1], list(range(-3, 40)), [10, 9, 100, -10, 2], [-1], [7, 2 ** 30, -2 ** 30], list(range(200, 0, -1)),
                           list(range(300))])
        if it < len(small):
            n = len(small[it])
        names = sorted(R.universe(rng, n))
        lab = list(small[it]) if it < len(small) else [rng.choice(pool) for _ in range(n)]
        order = rng.sample(range(n), n)
        np_ints = rng.random() < 0.2
        d = {names[i]: np.int64(lab[i]) if np_ints else lab[i] for i in order}
        before = list(d.items())
        out, v = R.call(rename_clusters_by_order, clusters=d)
        keys, got = [], [-1] * n
        if out == "ok":
            try:
                for k, x in v.items():
                    keys.append(names.index(k) + 1 if k in names else 0)
                    got[names.index(k)] = int(x) if not isinstance(x, bool) and int(x) == x else -1
            except Exception:
                keys = [0]
        rec.emit(op="rename", lab=lab, keys=keys, got=got, out=out, same=before == list(d.items()))
        if out == "ok" and isinstance(v, dict):
            v.clear()


# -------------------------------------------------------------- preprocessing
LISTED = ".,;:!¡?¿…•(){}[]«»^`'\"\\/|-_#&~@"
VOCAB = ["carte", "crédit", "éléphant", "le", "la", "de", "est", "où", "à", "paiement", "naïve", "cœur", "ça", "ﬁn", "12",
         "3", "5", "none", "true", "garçon", "ñandú", "straße", "été", "pas", "vous", "bleu", "z", "y", "ÿ", "çà", "1", "0",
         "ｗｉｄｅ", "ângström", "x²", "élève", "nan", "false", "inf"]
ODD = ["=", "+", "$", "*", "%", "“", "”", "‹", "<", ">", "§", "°"]     # alone, between spaces
SEPS = [" ", " ", " ", "  ", "\t", "\n", " \n ", ", ", ". ", " ? ", "'", "-", "_", "/", " - ", "(", ") ", "…", "•", "« ", " »", "«", "@", "#", "&", "~", "^", "`", "\\", "|", "[", "]", "{", "}", ";", ":", "!", "¡", "¿", '"', "\u00a0"]
_models = {}


def lemma_of(w):
    return w if len(w) < 4 else w[:3] + "é" + str(len(w))


def tree_heads(n):
    """Head of the i-th word (0-based); roots point to themselves."""
    h = []
    for i in range(n):
        if i == 0 or i % 7 == 6:
            h.append(i)
        elif i < 3 or i % 5 == 0:
            h.append(0)
        else:
            h.append(i - 2)
    return h


def register():
    from spacy.language import Language
    from spacy.tokens import Doc

    if "verif_tree" in Language.factories:
        return

    @Language.component("verif_tree")
    def verif_tree(doc):
        pos = [i for i, t in enumerate(doc) if not t.is_space]
        hs = tree_heads(len(pos))
        heads = list(range(len(doc)))
        for k, i in enumerate(pos):
            heads[i] = pos[hs[k]]
        deps = ["ROOT" if heads[i] == i else "dep" for i in range(len(doc))]
        return Doc(doc.vocab, words=[t.text for t in doc], spaces=[bool(t.whitespace_) for t in doc], heads=heads, deps=deps,
                   lemmas=[lemma_of(t.text) for t in doc])


def spacy_model(kind):
    """Path of a small French model built here: tokenizer, stop words, a fixed tree and lemmas, word vectors."""
    if kind in _models:
        return _models[kind]
    import atexit
    import spacy
    register()
    nlp = spacy.blank("fr")
    nlp.add_pipe("verif_tree")
    if kind == "vectors":
        for i, w in enumerate(VOCAB[:25]):
            nlp.vocab.set_vector(w, np.array(word_vec(i), dtype="float32"))
    d = tempfile.mkdtemp(prefix="vspacy")
    nlp.to_disk(d)
    pid = os.getpid()
    atexit.register(lambda: shutil.rmtree(d, ignore_errors=True) if os.getpid() == pid else None)
    _models[kind] = d
    return d


def close():
    for d in _models.values():
        shutil.rmtree(d, ignore_errors=True)
    _models.clear()


def word_vec(i):
    return [(i * 7) % 11 - 5, (i * 3) % 5, i % 4 - 1, i]


def cps(s):
    return [ord(c) for c in s]


def text_of(rng):
    n = rng.choice([0, 1, 2, 3, 5, 8, 12, 16, 40] * 4 + [150])
    out = rng.choice(["", "", " ", "\n", "«"])
    for _ in range(n):
        if rng.random() < 0.08:
            out += " " + rng.choice(ODD) + " "
            continue
        w = rng.choice(VOCAB)
        c = rng.randrange(4)
        w2 = [w, w.upper(), w.capitalize(), w][c]
        if w2.lower() != w:
            w2 = w
        out += w2 + rng.choice(SEPS)
    return out


def char_table(texts):
    t = []
    for c in sorted({c for s in texts for c in s}):
        low = c.lower()
        base = "".join(x for x in unicodedata.normalize("NFKD", c) if not unicodedata.combining(x))
        t.append([ord(c), cps(low), cps(base), bool(c.isspace())])
    return t


def prep_session(rec, rng, prop, opts):
    from cognitivefactory.interactive_clustering.utils.preprocessing import preprocess
    from spacy.lang.fr.stop_words import STOP_WORDS
    path = spacy_model("plain")
    for _ in range(opts.get("runs", 3)):
        k = rng.choice([0, 1, 2, 3, 5, 7] * 4 + [40])
        keys = ["k%d" % i for i in range(k)]
        rng.shuffle(keys)
        texts = {}
        for key in keys:
            texts[key] = text_of(rng) if k < 40 else " ".join(rng.choice(VOCAB) for _ in range(rng.randint(0, 3)))
            texts[key] = texts[key] if rng.random() < 0.85 else rng.choice([12, None, 3.5, True, False, 0, -1, float("inf")])
            if texts and rng.random() < 0.15:
                texts[key] = rng.choice(list(texts.values()))
        sw, pf, le = rng.random() < 0.5, rng.random() < 0.4, rng.random() < 0.4
        rec.begin({"kind": "preprocess", "texts": {a: str(b) for a, b in texts.items()}, "opts": [sw, pf, le]})
        before = list(texts.items())
        kw = dict(apply_stopwords_deletion=sw, apply_parsing_filter=pf, apply_lemmatization=le)
        kw = {a: b for a, b in kw.items() if b or rng.random() < 0.5}         # options are off by default
        out, v = R.call(preprocess, dict_of_texts=texts, spacy_language_model=path, **kw)
        ok = out == "ok" and isinstance(v, dict) and all(isinstance(x, str) for x in v.values())
        rec.fact("C24.keys", ok and list(v) == keys, out=out, v=v)
        rec.emit(op="inputs", tag="C24", same=before == list(texts.items()))
        if not ok:
            continue
        words = VOCAB + ODD
        lems = [lemma_of(w) for w in words]
        ws = [[cps(w), w in STOP_WORDS, all(unicodedata.category(c).startswith("P") for c in w), cps(l)]
              for w, l in zip(words, lems)]
        for key in keys:
            if key not in v:
                continue
            t = str(texts[key])
            rec.emit(op="prep", text=cps(t), out=cps(v[key]), sw=sw, pf=pf, le=le, words=ws,
                     chars=char_table([t, t.lower(), "".join(words), "".join(lems), v[key]]))


# -------------------------------------------------------------- vectorisation
WORDS = ["aa", "bb", "cc", "dd", "ee", "ff", "carte", "crédit", "zz9", "le", "été", "xx", "42"]
WORDS += ["w%02d" % i for i in range(60)]


def dense(v):
    return np.asarray(v.todense()).flatten()


def tfidf_session(rec, rng, prop, opts):
    from cognitivefactory.interactive_clustering.utils.vectorization import vectorize
    for _ in range(opts.get("runs", 3)):
        n = rng.choice([1, 2, 3, 4, 6, 9, 14])
        pool = rng.sample(range(13), rng.choice([2, 3, 5, 13]))
        lens = [0, 1, 2, 3, 4, 7]
        if rng.random() < 0.06:                # many texts, or long ones
            n, pool, lens = rng.choice([(30, list(range(40)), [1, 4, 9]), (48, pool, [0, 1, 2, 5]), (6, list(range(73)), [60, 90]), (22, list(range(73)), [25])])
        texts = [[1 + rng.choice(pool) for _ in range(rng.choice(lens))] for _ in range(n)]
        if n > 1 and rng.random() < 0.4:
            texts[rng.randrange(n)] = list(rng.choice(texts))
        sep = rng.choice([" ", "  ", ", ", " - "])
        keys = ["t%d" % i for i in range(n)]
        rng.shuffle(keys)
        d = {k: sep.join(WORDS[w - 1].upper() if rng.random() < 0.2 else WORDS[w - 1] for w in t) for k, t in zip(keys, texts)}
        if rng.random() < 0.3:       # one-letter words are no tokens
            d = {k: (v + " a b") for k, v in d.items()}
        d = {k: int(v) if v == "42" and rng.random() < 0.7 else v for k, v in d.items()}      # not every text is a string
        rec.begin({"kind": "tfidf", "texts": d})
        before = list(d.items())
        out, v = R.call(vectorize, dict_of_texts=d, **({"vectorizer_type": "tfidf"} if rng.random() < 0.7 else {}))
        ev = dict(op="tfidf", texts=texts, out=out, keysok=True, dim=[], nnz=[], pos=True, norm=[], dot=[], wt=[],
                  idf=[int(round(1000 * (1 + math.log((1 + n) / (1 + df))))) for df in range(1, n + 1)], same=before == list(d.items()))
        if out == "ok":
            try:
                ev["keysok"] = list(v) == keys and all(x.shape[0] == 1 for x in v.values())
                X = [dense(v[k]) for k in keys]
                ev["dim"] = [int(x.shape[0]) for x in X]
                ev["nnz"] = [int((abs(x) > 1e-12).sum()) for x in X]
                ev["wt"] = [sorted((int(round(1e4 * float(c))) for c in x if abs(c) > 1e-12), reverse=True) for x in X]
                ev["pos"] = all(bool((x >= 0).all()) for x in X)
                ev["norm"] = [int(round(1e6 * float((x * x).sum()))) for x in X]
                ev["dot"] = [[max(1, int(round(1e6 * float(x @ y)))) if abs(float(x @ y)) > 1e-12 else 0 for y in X] for x in X]
            except Exception as err:
                ev["keysok"] = False
                ev["dim"], ev["nnz"], ev["norm"], ev["wt"], ev["dot"] = [], [], [], [], [[0] * n for _ in range(n)]
        rec.emit(**ev)


def spvec_session(rec, rng, prop, opts):
    from cognitivefactory.interactive_clustering.utils.vectorization import vectorize
    path = spacy_model("vectors")
    words = VOCAB[:25] + ["inconnu"]
    for _ in range(opts.get("runs", 3)):
        n = rng.choice([0, 1, 2, 4, 6] * 3 + [30])
        texts = [[1 + (14 if rng.random() < 0.15 else rng.randrange(len(words))) for _ in range(rng.choice([1, 1, 2, 3, 5] * 3 + [13]))] for _ in range(n)]
        keys = ["s%d" % i for i in range(n)]
        rng.shuffle(keys)
        d = {k: " ".join(words[w - 1] for w in t) for k, t in zip(keys, texts)}
        d = {k: int(v) if v in ("12", "3", "5") and rng.random() < 0.7 else v for k, v in d.items()}
        rec.begin({"kind": "spacy vectors", "texts": d})
        before = list(d.items())
        out, v = R.call(vectorize, dict_of_texts=d, vectorizer_type="spacy", spacy_language_model=path)
        ok = out == "ok" and isinstance(v, dict) and list(v) == keys
        vec = []
        if ok:
            try:
                ok = all(v[k].shape == (1, 4) for k in keys)
                vec = [[int(round(float(c) * 720720)) for c in dense(v[k])] for k in keys]
            except Exception:
                ok = False
        if not ok:
            vec = []
        rec.emit(op="spvec", texts=texts, wv=[word_vec(i) for i in range(25)] + [[0, 0, 0, 0]], ok=ok, vec=vec,
                 same=before == list(d.items()))
