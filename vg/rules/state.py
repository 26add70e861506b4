"""C40 (indexing again replaces the index), C41 (display options do not change results)."""
import itertools
from .base import *  # noqa
from . import base
from .query import SELF, Q_STR, Q_INT, retrieve
from .index import TUP
from .io import files_written
from .tok import Scene, fn_run
from .bench import MOD as BEIR, SAVE, DATA
from . import corpus as cor

PARTS = ("scores", "vocab_dict", "unique_token_ids_set", "nonoccurrence_array")
CREATE = (True, False)


def corpora():
    ids, v = S("ids", ListOf(ListOf(INT))), S("vocab", DictOf(NAT))
    return [("string tokens", S("T", ListOf(ListOf(STR)))), ("integer tokens", S("T", ListOf(ListOf(INT)))), ("pair", tm.ttuple([ids, v])), ("object", tokd(ids, v))]


def run_index(ck, method, corpus, create=True, prior=True, **kw):
    """abstract run of BM25.index on an object that already holds an index"""
    e = base.engine()
    bm_types(e, [("nonoccurrence_array", Arr(FLOAT)), ("vocab_dict", DictOf(NAT))], method=method)
    e.attr_types[(TUP, "ids")] = ListOf(ListOf(INT))
    e.attr_types[(TUP, "vocab")] = DictOf(NAT)
    st = State({}, dict(e.base_heap))
    r, st = call(e, "bm25s", "BM25.index", [SELF, corpus], dict(create_empty_token=TRUE if create else FALSE, **kw), st)
    ck.use(e)
    return e, st, r


def self_stores(e):
    """names of the attributes of the object that some path may set"""
    out = set()
    for x in effects(e, "setattr", "mutate", "maybe_mutate"):
        if pc_of(x) is FALSE:
            continue
        ref = x.d.get("ref") if x.kind != "setattr" else x.d.get("obj")
        if isinstance(ref, tm.T):
            for y in [ref] + tm.find_ops(ref, "attr"):
                if y.op == "attr" and y.a[0].key == SELF.key:
                    out.add(y.a[1])
        if isinstance(ref, tm.T) and ref.key == SELF.key and isinstance(x.d.get("name"), str):
            out.add(x.d["name"])
    return out


# ---------------------------------------------------------------------------- C40
def old_parts(t, names):
    return sorted({x.a[1] for x in tm.find_ops(t, "attr") if x.a[0].key == SELF.key and x.a[1] in names})


def c40(ck):
    where = "BM25.index"
    for m in ("lucene", "bm25l") if ck.tier != "thorough" else ("robertson", "lucene", "atire", "bm25l", "bm25+"):
        for nm, c in corpora():
            for create in CREATE:
                def one():
                    e, st, r = run_index(ck, m, c, create)
                    tag = "method=%s, %s, create_empty_token=%s" % (m, nm, create)
                    ck.count("index_runs")
                    if st.pc is FALSE or not any(field(e, st, SELF, n) is not None for n in PARTS):
                        ck.add("%s: index() returns" % tag, UNDEC, "no normal return", where)
                        return
                    for n in PARTS:
                        t = field(e, st, SELF, n)
                        if t is None:
                            ck.add("%s: %s" % (tag, n), UNDEC, "no value", where)
                            continue
                        ck.count("parts")
                        old = old_parts(t, PARTS)
                        if not old:
                            ck.add("%s: %s holds nothing of the previous index" % (tag, n), OK, "", where)
                            continue
                        # which part survives, and when
                        q = attr(SELF, old[0])
                        ck.require("%s: %s holds nothing of the previous index" % (tag, n), None if lost_in(t, PARTS) else False, where,
                                   "after index(), %s depends on the previous %s: %s" % (n, ", ".join(old), show(t)[:600]))
                ck.guard("c40 %s %s" % (m, nm), one)


def lost_in(t, names):
    """is every old part inside a value that the analysis does not model?"""
    # (a value that could not be computed at all; one of an unmodelled operation still depends on its operands)
    ops = {"unk"} & set(opaque_ops(t))
    if not ops:
        return False
    bad = [x for x in tm.subterms(t) if x.op in ops]

    def walk(x):
        if x.op in ops:
            return False
        if x.op == "attr" and x.a[0].key == SELF.key and x.a[1] in names:
            return True
        return any(walk(y) for y in flat_args(x))
    return not walk(t) if bad else False


def flat_args(x):
    st = list(x.a)
    while st:
        y = st.pop()
        if isinstance(y, tm.T):
            yield y
        elif isinstance(y, (tuple, list)):
            st += list(y)


# ---------------------------------------------------------------------------- C41
def options(names):
    """every setting of the named display options"""
    vals = {"verbosity": (ZERO, ONE, const(2)), "length": (NONEV, S("a_length", NAT))}
    for vs in itertools.product(*[vals.get(n, (TRUE, FALSE)) for n in names]):
        yield dict(zip(names, vs))


def raised(e):
    """conditions and kinds of the errors that can leave the call"""
    return sorted({(str(x.d.get("exc")), pc_of(x).key) for x in effects(e, "raise") if pc_of(x) is not FALSE}, key=str)


def compare(ck, tag, names, run, where):
    """run(options) -> [(what, term)]: the same for every setting"""
    ref = None
    n0 = tm._uid[0]
    for o in options(names):
        # equal computations get equal names, so that equal values are equal terms
        tm._uid[0] = n0
        got = dict(run(o))
        ck.count("settings")
        if ref is None:
            ref, first = got, o
            if not got or all(v is None for v in got.values()):
                ck.add("%s: a result" % tag, UNDEC, "no value", where)
                return
            continue
        txt = ", ".join("%s=%s" % (n, show(v)) for n, v in o.items())
        for n in sorted(set(ref) | set(got)):
            a, b = ref.get(n), got.get(n)
            name = "%s: %s with %s" % (tag, n, txt)
            if a is None and b is None:
                ck.add(name, OK, "", where)
            elif a is None or b is None:
                ck.require(name, False, where, "%s exists for one setting of the display options only" % n)
            else:
                ck.same(name, b, a, where, "%s differs from the one with %s" % (n, ", ".join("%s=%s" % (n_, show(v)) for n_, v in first.items())))


def c41(ck):
    G = ck.guard
    for m in ("lucene", "bm25l"):
        for nm, c in corpora():
            def one():
                def run(o):
                    e, st, r = run_index(ck, m, c, True, **o)
                    return [(n, field(e, st, SELF, n)) for n in PARTS]
                compare(ck, "BM25.index, method=%s, %s" % (m, nm), ("show_progress", "leave_progress"), run, "BM25.index")
            G("c41 index %s" % nm, one)
    for be in ("numpy", "numba"):
        for nm, qt in (("strings", Q_STR), ("IDs", Q_INT)):
            for nt in (0, 2):
                def two():
                    def run(o):
                        x = retrieve(ck, be, qt, n_threads=nt, **o)
                        return [("the documents", x.docs), ("the scores", x.scores)]
                    compare(ck, "BM25.retrieve, %s, queries of %s, n_threads=%d" % (be, nm, nt), ("show_progress", "leave_progress"), run, "BM25.retrieve")
                G("c41 retrieve %s %s" % (be, nm), two)
    texts, stop, stemmer = S("texts", ListOf(STR)), S("stop", ListOf(STR)), S("stemmer", FUNC)
    for sm in (True, False):
        for ids in (True, False):
            def three():
                def run(o):
                    e = base.engine()
                    st = State({}, dict(e.base_heap))
                    r, st = call(e, "bm25s", "tokenize", [texts], dict(stopwords=stop, stemmer=stemmer if sm else NONEV, return_ids=TRUE if ids else FALSE, **o), st)
                    ck.use(e)
                    if r is not None and r.op in ("nt", "obj") and len(r.a) > 1 and isinstance(r.a[1], tuple) and all(isinstance(q, tm.T) for q in r.a[1]):
                        return [("part %d of the result" % i, q) for i, q in enumerate(r.a[1])]
                    return [("the result", r)]
                compare(ck, "tokenize, %s, return_ids=%s" % ("stemmer" if sm else "no stemmer", ids), ("show_progress", "leave"), run, "tokenize")
            G("c41 tokenize", three)
    words = [S("w0", STR), S("w1", STR)]
    for sm in (True, False):
        for ids in (True, False):
            def words_of_two():
                e = base.engine()

                def run(o):
                    r, _ = fn_run(e, [words[:1], words], (), sm, ids, True, False, **o)
                    return [("the result", r)]
                compare(ck, "tokenize two texts, %s, return_ids=%s" % ("stemmer" if sm else "no stemmer", ids), ("show_progress", "leave"), run, "tokenize")
                ck.use(e)
            G("c41 tokenize words", words_of_two)
        for upd in (TRUE, FALSE, const("never"), const("if_empty")):
            for ra in ("ids", "string", "tuple"):
                def four():
                    sc = Scene(sm, True)

                    def run(o):
                        r, maps, _ = sc.run([words[:1]], upd, True, (), return_as=const(ra), **o)
                        return [("the result", r)] + sorted(maps.items())
                    compare(ck, "Tokenizer.tokenize, %s, update_vocab=%s, return_as=%s" % ("stemmer" if sm else "no stemmer", show(upd), ra),
                            ("show_progress", "leave_progress", "length"), run, "Tokenizer.tokenize")
                    ck.use(sc.e)
                G("c41 Tokenizer %s" % ra, four)
    for sm in (True, False):
        for upd in (TRUE, FALSE, const("never"), const("if_empty")):
            def gen():
                def run(o):
                    e = base.engine()
                    st = State({}, dict(e.base_heap))
                    m, cls = lookup(e, "bm25s.tokenization", "Tokenizer", st)
                    e.cur_mod = m
                    t = e.call(cls, [], {"stopwords": stop, "stemmer": stemmer if sm else NONEV}, st, None)
                    r = e.resolve(e.call(e.get_attr(t, "tokenize", st), [texts], dict(update_vocab=upd, **o), st, None), st)
                    ck.use(e)
                    return [("the result", r)] + [(n, field(e, st, t, n)) for n in ("word_to_id", "stem_to_sid", "word_to_stem")]
                compare(ck, "Tokenizer.tokenize of any texts, %s, update_vocab=%s" % ("stemmer" if sm else "no stemmer", show(upd)),
                        ("show_progress", "leave_progress", "length"), run, "Tokenizer.tokenize")
            G("c41 Tokenizer any texts", gen)
    for have in (True, False):
        def five():
            def run(o):
                e, st, c = cor.built(ck, have, **o)
                if c is None:
                    return []
                out = [(n, field(e, st, c, n)) for n in ("path", "mmindex", "encoding")]
                for i, x in enumerate(x for x in files_written(e).content.values()):
                    out.append(("file %s" % show(x[0])[:60], x[1]))
                h = S("i", NAT)
                r, _ = cor.run(e, st, c, "__getitem__", h)
                out.append(("a record", r))
                r, _ = cor.run(e, st, c, "__len__")
                out.append(("the length", r))
                return out
            compare(ck, "JsonlCorpus, %s" % ("with a line index" if have else "without a line index"), ("show_progress", "leave_progress", "verbosity"), run, "JsonlCorpus")
        G("c41 JsonlCorpus", five)

    def six():
        def run(o):
            e = base.engine()
            r, st = call(e, "bm25s.utils.corpus", "find_newline_positions", [S("path", STR)], o)
            ck.use(e)
            return [("the line index", r)]
        compare(ck, "find_newline_positions", ("show_progress", "leave_progress"), run, "find_newline_positions")
    G("c41 find_newline_positions", six)
    for fn in ("load_corpus", "load_queries", "load_qrels"):
        for rd in (TRUE, FALSE):
            def seven():
                def run(o):
                    e = base.engine()
                    e.get_module(BEIR)
                    r, st = call(e, BEIR, fn, [DATA], dict(save_dir=SAVE, return_dict=rd, **o))
                    ck.use(e)
                    return [("the result", r)]
                compare(ck, "%s(return_dict=%s)" % (fn, show(rd)), ("show_progress",), run, fn)
            G("c41 %s" % fn, seven)
