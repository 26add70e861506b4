"""C14: the package without its optional dependencies."""
from .base import *  # noqa
from . import base, scoring
from .query import setup, SELF, Q_STR, Q_INT, K, WM, selection_args, row_scores
from .io import typed

OPTIONAL = ("numba", "tqdm", "orjson", "Stemmer", "jax", "huggingface_hub", "beir", "psutil", "ujson", "datasets", "pytrec_eval")
NONE = {n: False for n in OPTIONAL}
CORE = ("bm25s", "bm25s.tokenization", "bm25s.scoring", "bm25s.selection", "bm25s.stopwords", "bm25s.utils", "bm25s.utils.corpus",
        "bm25s.utils.json_functions", "bm25s.utils.beir", "bm25s.utils.benchmark")
HANDLES = {"bad_call": {"TypeError", "Exception", "BaseException", "*"}, "name_error": {"NameError", "Exception", "BaseException", "*"}, "attr_none": {"AttributeError", "Exception", "BaseException", "*"},
           "call_none": {"TypeError", "Exception", "BaseException", "*"}, "raise": set(),
           "import_req": {"ImportError", "ModuleNotFoundError", "Exception", "BaseException", "*"}}


def trouble(e):
    """[(what, effect)]: uses of something that is missing, on feasible paths"""
    out = []
    for x in e.effects:
        if x.kind not in HANDLES or pc_of(x) is FALSE or any(n in HANDLES[x.kind] for h in x.handlers for n in h):
            continue
        if x.stack and x.stack[-1][0].startswith("<module ") and (x.kind == "import_req" or e.get_module(x.mod).requires is not TRUE):
            continue        # the module's own requirement: what counts is who imports it
        if x.kind == "raise":
            if x.d["exc"] in ("ImportError", "ModuleNotFoundError") and not x.d.get("caught"):
                out.append(("raises %s" % x.d["exc"], x))
        elif x.kind == "import_req":
            if x.d["cond"] is not TRUE:
                out.append(("needs the import of %s" % ", ".join(sorted({show(t) for t in tm.find_ops(x.d["cond"], "avail")}) or ["a missing package"]), x))
        elif x.kind == "name_error":
            out.append(("uses the undefined name %s" % x.d["name"], x))
        elif x.kind == "bad_call":
            out.append(("calls %s wrongly (%s)" % (x.d["func"], x.d["why"]), x))
        elif x.kind == "attr_none":
            out.append(("takes the attribute %s of %s" % (x.d["name"], x.d.get("of") or "None"), x))
        else:
            out.append(("calls None", x))
    return out


def runs(m):
    """name -> function(engine, state) performing one abstract use; its value is compared between environments"""
    def fresh_index(e, st, corpus):
        o = scoring.new_bm(e, st, method=m, backend="numpy")
        e.call(e.get_attr(o, "index", st), [corpus], {}, st, None)
        return tm.ttuple([field(e, st, o, n) for n in ("scores", "vocab_dict", "unique_token_ids_set", "nonoccurrence_array", "backend")])

    def auto(e, st):
        return field(e, st, scoring.new_bm(e, st, method=m, backend="auto"), "backend")

    def search(qt, sel, **kw):
        def go(e, st):
            typed(e, m, m in ("bm25l", "bm25+"))
            e.attr_vals[(BM, "backend")] = const("numpy")
            a = dict(k=K, n_threads=ZERO, backend_selection=const(sel))
            a.update(kw)
            r, st = call(e, "bm25s", "BM25.retrieve", [SELF, S("Q", qt)], a, st)
            if r is None:
                return None
            got = selection_args(r, ("argpart", "argsort", "app", "sortarr", "call"))
            return got[0] if len(got) == 1 else tm.tlist(sorted(got, key=lambda t: t.key)) if got else None
        return go

    def scores(e, st):
        typed(e, m, m in ("bm25l", "bm25+"))
        return call(e, "bm25s", "BM25.get_scores", [SELF, S("q", ListOf(STR, nonempty=True))], {}, st)[0]

    def tok(**kw):
        def go(e, st):
            a = dict(stopwords=const("en"), stemmer=NONEV, return_ids=TRUE)
            a.update(kw)
            return call(e, "bm25s", "tokenize", [S("texts", ListOf(STR))], a, st)[0]
        return go

    def klass(e, st):
        mod, cls = lookup(e, "bm25s.tokenization", "Tokenizer", st)
        e.cur_mod = mod
        o = e.call(cls, [], {}, st, None)
        return e.resolve(e.call(e.get_attr(o, "tokenize", st), [S("texts", ListOf(STR))], {}, st, None), st)

    def save(e, st):
        typed(e, m, m in ("bm25l", "bm25+"))
        call(e, "bm25s", "BM25.save", [SELF, S("dir", STR)], {"corpus": S("corpus", ListOf(STR))}, st)

    def load(mm):
        def go(e, st):
            call(e, "bm25s", "BM25.load", [S("dir", STR)], {"mmap": mm, "load_corpus": TRUE}, st)
        return go

    def lazy(e, st):
        mod, cls = lookup(e, "bm25s.utils.corpus", "JsonlCorpus", st)
        e.cur_mod = mod
        o = e.call(cls, [S("path", STR)], {}, st, None)
        e.call(e.get_attr(o, "__getitem__", st), [S("i", INT)], {}, st, None)
    return {
        "index of string tokens": (lambda e, st: fresh_index(e, st, S("T", ListOf(ListOf(STR)))), True),
        "index of integer tokens": (lambda e, st: fresh_index(e, st, S("T", ListOf(ListOf(INT)))), True),
        "backend='auto'": (auto, False),
        "retrieve strings": (search(Q_STR, "auto"), True),
        "retrieve IDs": (search(Q_INT, "auto"), True),
        "retrieve, numpy selection": (search(Q_STR, "numpy"), True),
        "retrieve in threads with progress": (search(Q_STR, "auto", n_threads=S("nt", INT), show_progress=TRUE), True),
        "get_scores": (scores, True),
        "tokenize": (tok(), False), "tokenize, progress": (tok(show_progress=TRUE), False), "tokenize, strings": (tok(return_ids=FALSE), False),
        "Tokenizer.tokenize": (klass, False),
        "save": (save, False), "load": (load(FALSE), False), "load with mmap": (load(TRUE), False), "JsonlCorpus": (lazy, False),
    }


def perform(ck, name, fn, avail):
    e = base.engine(avail=avail)
    e.opaque_loops = True
    st = State({}, dict(e.base_heap))
    try:
        v = fn(e, st)
        dead = False
    except Dead:
        v, dead = None, True
    ck.use(e)
    ck.count("runs")
    return e, v, dead


def c14(ck):
    ms = ("lucene", "bm25l") if ck.tier != "thorough" else scoring.METHODS

    def imports():
        e = base.engine(avail=NONE)
        for n in CORE:
            m = e.get_module(n)
            ck.require("%s can be imported without optional packages" % n, m.requires is TRUE and "__dead__" not in m.env, m.path,
                       "importing it needs %s" % show(m.requires))
        tr = trouble(e)
        ck.require("no module uses a missing package while it is imported", not tr, tr[0][1].where if tr else "bm25s", "; ".join("%s: %s" % (x.where, w) for w, x in tr[:4]))
        ck.use(e)
    ck.guard("imports", imports)
    envs = [("no optional package", NONE), ("numba", {**NONE, "numba": True}), ("jax", {**NONE, "jax": True}), ("tqdm", {**NONE, "tqdm": True}),
            ("orjson", {**NONE, "orjson": True})]
    if ck.tier == "thorough":
        envs += [("all", {n: True for n in OPTIONAL}), ("numba and jax", {**NONE, "numba": True, "jax": True})]
    for m in ms:
        for name, (fn, compare) in runs(m).items():
            if m != ms[0] and not name.startswith(("index", "retrieve")):
                continue

            def one():
                ref = None
                for en, av in envs:
                    if en != envs[0][0] and not compare and name != "backend='auto'":
                        continue
                    if en in ("tqdm", "orjson") and m != ms[0]:
                        continue
                    e, v, dead = perform(ck, name, fn, av)
                    tr = trouble(e)
                    tag = "%s, method=%s, with %s" % (name, m, en)
                    ck.require("%s: nothing missing is used" % tag, not tr, tr[0][1].where if tr else "", "; ".join("%s: %s" % (x.where, w) for w, x in tr[:4]))
                    if dead and not tr:
                        ck.add("%s: it can be used" % tag, UNDEC, "no normal return")
                    if name == "backend='auto'":
                        if not av["numba"]:
                            ck.same("backend='auto' without numba is numpy (with %s)" % en, v, const("numpy"), "BM25.__init__", "another backend is chosen")
                    elif en == envs[0][0]:
                        ref = v
                    elif ref is not None:
                        ck.same("%s: same result as without" % tag, v, ref, "", "the scores depend on which packages are installed", allow=OPAQUE)
            ck.guard("%s %s" % (name, m), one)

    def explicit(form):
        e = base.engine(avail=NONE)
        st = State({}, dict(e.base_heap))
        if form == "retrieve":
            typed(e, "lucene", False)
            e.attr_vals[(BM, "backend")] = const("numba")
            r, st = call(e, "bm25s", "BM25.retrieve", [SELF, S("Q", ListOf(ListOf(STR), nonempty=True))], dict(k=K, n_threads=ZERO), st)
        elif form == "backend_selection":
            typed(e, "lucene", False)
            e.attr_vals[(BM, "backend")] = const("numpy")
            r, st = call(e, "bm25s", "BM25.retrieve", [SELF, S("Q", ListOf(ListOf(STR), nonempty=True))], dict(k=K, n_threads=ZERO, backend_selection=const("numba")), st)
        elif form == "jax":
            r, st = call(e, "bm25s.selection", "topk", [S("scores", Arr(FLOAT)), K], {"backend": const("jax")}, st)
        else:
            r, st = call(e, "bm25s", "BM25.activate_numba_scorer", [SELF], {}, st)
        ck.use(e)
        imp = [x for x in effects(e, "raise") if x.d["exc"] in ("ImportError", "ModuleNotFoundError") and not x.d.get("caught")]
        odd = [(w, x) for w, x in trouble(e) if x.kind in ("attr_none", "call_none", "name_error")]
        ck.require("%s asking for a missing backend raises ImportError" % form, False if odd else True if imp and (r is None or form == "backend_selection") else False,
                   odd[0][1].where if odd else "", "; ".join("%s: %s" % (x.where, w) for w, x in odd[:3]) or "the request is answered")
    for form in ("retrieve", "backend_selection", "jax", "activate_numba_scorer"):
        ck.guard(form, lambda: explicit(form))
