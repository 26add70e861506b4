"""C01-C05, C34(index side), C39: what the index stores for every (document, token) pair."""
from .base import *  # noqa
from . import base

METHODS = ["lucene", "robertson", "atire", "bm25l", "bm25+"]
K1, B_, DELTA = S("k1", FLOAT), S("b", FLOAT), S("delta", FLOAT)
HALF = const(0.5)


def new_bm(e, st, **kw):
    m = e.get_module("bm25s")
    if "BM25" not in m.env:
        raise Anchor("public class bm25s.BM25 not found")
    e.cur_mod = m
    args = dict(k1=K1, b=B_, delta=DELTA, dtype=S("dtype", STR), int_dtype=S("int_dtype", STR))
    args.update({k: (v if is_T(v) else const(v)) for k, v in kw.items()})
    return e.call(m.env["BM25"], [], args, st, None)


def is_T(v):
    return isinstance(v, tm.T)


def idf_spec(m, df, N):
    if m == "robertson":
        inner = div(add(sub(N, df), HALF), add(df, HALF))
        r = log(tm.minmax("max", [inner, ONE]))
        return r
    if m == "lucene":
        return log(add(ONE, div(add(sub(N, df), HALF), add(df, HALF))))
    if m == "atire":
        return log(div(N, df))
    if m == "bm25l":
        return log(div(add(N, ONE), add(df, HALF)))
    return log(div(add(N, ONE), df))


def tf_spec(m, tf, L, avg):
    norm = add(sub(ONE, B_), mul(B_, div(L, avg)))
    if m in ("robertson", "lucene"):
        return div(tf, add(tf, mul(K1, norm)))
    if m == "atire":
        return div(mul(tf, add(K1, ONE)), add(tf, mul(K1, norm)))
    if m == "bm25l":
        c = div(tf, norm)
        return div(mul(add(K1, ONE), add(c, DELTA)), add(add(K1, c), DELTA))
    return add(DELTA, div(mul(tf, add(K1, ONE)), add(tf, mul(K1, norm))))


class Index:
    """entries of the stored matrix for a generic document d and its j-th distinct token"""


def build(ck, m, im, corpus_ty=None):
    e = base.engine()
    st = State({}, dict(e.base_heap))
    bm = new_bm(e, st, method=m, idf_method=im) if im is not None else new_bm(e, st, method=m)
    U = S("U", ListOf(INT))
    C = S("corpus", ListOf(ListOf(INT)))
    f = e.get_attr(bm, "build_index_from_ids", st)
    if f is None or f.op not in ("bound", "func"):
        raise Anchor("public method BM25.build_index_from_ids not found")
    try:
        r = e.resolve(e.call(f, [U, C], {}, st, None), st)
    except Dead:
        r = None
    ck.use(e)
    x = Index()
    x.e, x.st, x.bm, x.U, x.C, x.r = e, st, bm, U, C, r
    x.ok = False
    if r is None:
        x.why = "no normal return"
        return x
    x.nonocc = field(e, st, bm, "nonoccurrence_array")
    cs = tm.find_ops(r, "csc")
    x.why = "matrix construction not recognised"
    if len(cs) != 1:
        return x
    x.csc = cs[0]
    vals, rows, cols, shape = x.csc.a[:4]
    x.shape = shape
    x.sizes = [t.a[0] for t in (vals, rows, cols) if t.op == "filled"]
    d, j = S("d", NAT), S("j", NAT)
    x.d, x.j = d, j

    def piece(t):
        """(number of documents, entries of document d)"""
        t = strip(t)
        if t.op == "phi":
            a, b = piece(t.a[1]), piece(t.a[2])
            return (a[0], ite(t.a[0], a[1], b[1])) if a and b and a[0].key == b[0].key else None
        if t.op != "flat" or t.a[0].op != "comp" or t.a[0].a[1] is not TRUE:
            return None
        c = t.a[0]
        return c.a[0], tm.instantiate(c.a[2], c.a[3], d)
    ps = [piece(t) for t in (vals, rows, cols)]
    cut = [z for t in (vals, rows, cols) for z in tm.find_ops(t, "narrow")]
    if cut:
        x.bad = x.why = "stored values are converted to %s, which cannot hold all of them" % cut[0].a[1]
        return x
    if None in ps:
        x.why = "entries are not a concatenation over documents"
        return x
    x.Ns = [n for n, _ in ps]
    x.pieces = [y for _, y in ps]
    x.lens = [length(p) for p in x.pieces]
    x.val, x.row, x.col = [elem_of(p, j) for p in x.pieces]
    doc = index(C, d)
    x.doc = doc
    x.ndocs = length(C)
    v = tm.fresh()
    x.avg = div(tm.sumc(length(C), TRUE, length(index(C, v)), v), length(C))
    x.L = length(doc)
    x.ok = True
    return x


def stats(x, t):
    v = tm.fresh()
    df = tm.sumc(length(x.C), contains_(t, index(x.C, v)), ONE, v)
    tf = index(mk("counter", x.doc), t)
    return df, tf


def assume_entry(x, t, val):
    df, _ = stats(x, t)
    a = {contains_(t, x.U).key: True, tm.cmp("<", df, ONE).key: False}
    for s in (setseq(mkset(x.U)),):
        a[contains_(t, s).key] = True
    val = tm.restrict(val, a)
    return val


def shape_obligations(ck, x, tag):
    where = "BM25.build_index_from_ids"
    if not x.ok:
        ck.add("%s: stored entries" % tag, BAD if getattr(x, "bad", None) else UNDEC, x.why, where)
        return False
    ck.require("%s: entries cover every document once" % tag, all(n.key == length(x.C).key for n in x.Ns), where,
               "entries range over %s" % [show(n)[:100] for n in x.Ns])
    ck.same("%s: row of an entry is its document" % tag, x.row, x.d, where, "an entry of document d is stored in another row")
    ks = tm.mk("keys", mk("counter", x.doc))
    want = index(tm.keys_(mk("counter", x.doc)), x.j)
    ck.same("%s: column of an entry is one of the document's distinct tokens" % tag, x.col, want, where,
            "the entries of a document are not one per distinct token", undec=lambda g: bool(tm.find_ops(g, "unk")))
    n = length(tm.keys_(mk("counter", x.doc)))
    for nm, l in zip(("scores", "document ids", "token ids"), x.lens):
        ck.same("%s: number of %s of a document" % (tag, nm), l, n, where)
    return True


def c01(ck):
    """every stored score is IDF x TF of the selected variant, minus the variant's baseline"""
    pairs = [(m, m) for m in METHODS]
    if ck.tier == "thorough":
        pairs = [(a, b) for a in METHODS for b in METHODS]
    else:
        pairs += [("lucene", "robertson"), ("bm25l", "lucene"), ("bm25+", "atire")]
    for m, im in pairs:
        def one():
            x = build(ck, m, im)
            tag = "method=%s idf=%s" % (m, im)
            if not shape_obligations(ck, x, tag):
                return
            t = x.col
            df, tf = stats(x, t)
            want = mul(idf_spec(im, df, x.ndocs), tf_spec(m, tf, x.L, x.avg))
            if m in ("bm25l", "bm25+"):
                want = sub(want, mul(idf_spec(im, df, x.ndocs), tf_spec(m, ZERO, x.avg, x.avg)))
            got = assume_entry(x, t, x.val)
            ck.same("%s: stored score formula" % tag, got, assume_entry(x, t, want), "BM25.build_index_from_ids",
                    "the stored score of token t in document d (t=%s) is not the %s/%s score" % (show(t)[:60], m, im))
            ck.count("entries_formulas")
        ck.guard("c01 %s/%s" % (m, im), one)


def c02(ck):
    for im in METHODS:
        def one():
            x = build(ck, "lucene", im)
            tag = "idf=%s" % im
            if not x.ok:
                ck.add("%s: inverse document frequency" % tag, UNDEC, x.why)
                return
            t = x.col
            df, tf = stats(x, t)
            got = assume_entry(x, t, x.val)
            # divide by the term-frequency part: what remains must be the IDF, a function of df and N only
            ratio = div(got, tf_spec("lucene", tf, x.L, x.avg))
            dep = [y for y in tm.subterms(ratio) if y.key in (tf.key, x.L.key)]
            want = assume_entry(x, t, idf_spec(im, df, x.ndocs))
            if ratio.key == want.key:
                ck.add("%s: inverse document frequency" % tag, OK)
            elif dep:
                # the other factor is broken or unrecognised: look at the logarithms alone
                logs = {y.key: y for y in tm.find_ops(got, "log")}
                wl = {y.key for y in tm.find_ops(want, "log")}
                if logs and set(logs) == wl:
                    ck.add("%s: inverse document frequency" % tag, OK)
                else:
                    ck.same("%s: inverse document frequency" % tag, got, mul(want, tf_spec("lucene", tf, x.L, x.avg)), "BM25.build_index_from_ids",
                            "IDF of %s" % im)
            else:
                ck.same("%s: inverse document frequency" % tag, ratio, want, "BM25.build_index_from_ids",
                        "the inverse document frequency of variant %s is not the published one" % im)
            ck.count("variants")
        ck.guard("c02 %s" % im, one)


def close_match(ck, x, got, m, im):
    """the (method, idf method, parameter order) whose formula the value is"""
    df, tf = stats(x, x.col)
    for mm in METHODS:
        for ii in METHODS:
            for sub_ in ({}, {"k1": B_, "b": K1}, {"delta": B_, "b": DELTA}, {"k1": DELTA, "delta": K1}):
                w = full(x, mm, ii, df, tf)
                if sub_:
                    w = tm.replace(w, {S(k, FLOAT): v for k, v in sub_.items()})
                if assume_entry(x, x.col, w).key == got.key:
                    return mm, ii, sub_
    return None


def full(x, m, im, df, tf):
    w = mul(idf_spec(im, df, x.ndocs), tf_spec(m, tf, x.L, x.avg))
    if m in ("bm25l", "bm25+"):
        w = sub(w, mul(idf_spec(im, df, x.ndocs), tf_spec(m, ZERO, x.avg, x.avg)))
    return w


def c03(ck):
    """the requested variants, and only they, select the formulas; unknown names are rejected"""
    where = "BM25.__init__/build_index_from_ids"
    for m in METHODS:
        for im in [None] + METHODS:
            def one():
                x = build(ck, m, im)
                tag = "method=%s idf_method=%s" % (m, im)
                if not x.ok:
                    ck.add("%s: formulas used" % tag, UNDEC, x.why, where)
                    return
                df, tf = stats(x, x.col)
                got = assume_entry(x, x.col, x.val)
                want = assume_entry(x, x.col, full(x, m, im or m, df, tf))
                ck.count("combinations")
                if got.key == want.key:
                    ck.add("%s: formulas used" % tag, OK)
                    return
                cm = close_match(ck, x, got, m, im)
                if cm:
                    ck.add("%s: formulas used" % tag, BAD, "the index is built with the formulas of method=%s, idf_method=%s%s" % (
                        cm[0], cm[1], " with parameters exchanged (%s)" % ", ".join("%s<-%s" % (k, show(v)) for k, v in cm[2].items()) if cm[2] else ""), where)
                else:
                    # which parameters enter: a variant without delta must not read it, a variant reading k1 and b must read them
                    ps = {p.a[0] for p in tm.find_ops(got, "sym")} & {"k1", "b", "delta"}
                    ws = {p.a[0] for p in tm.find_ops(want, "sym")} & {"k1", "b", "delta"}
                    if ps != ws and not opaque_ops(got):
                        ck.add("%s: formulas used" % tag, BAD, "the score depends on %s instead of %s" % (sorted(ps), sorted(ws)), where)
                    elif tm.find_ops(got, "log") and not opaque_ops(got) and {l.key for l in tm.find_ops(got, "log")} != {l.key for l in tm.find_ops(want, "log")} and any(
                            {l.key for l in tm.find_ops(got, "log")} == {l.key for l in tm.find_ops(assume_entry(x, x.col, idf_spec(o, df, x.ndocs)), "log")} for o in METHODS):
                        ck.add("%s: formulas used" % tag, BAD, "the inverse document frequency of another variant is used", where)
                    else:
                        ck.add("%s: formulas used" % tag, UNDEC, "formula not recognised (see C01)", where)
            ck.guard("c03 %s/%s" % (m, im), one)
    for m, im in (("nosuch", None), ("lucene", "nosuch"), ("nosuch", "lucene"), ("Lucene", None), ("bm25", None), ("lucene", "bm25")):
        def unknown():
            x = build(ck, m, im)
            tag = "method=%s idf_method=%s" % (m, im)
            rs = [q for q in effects(x.e, "raise") if not q.d["caught"]]
            ck.require("%s: rejected" % tag, x.r is None, where, "an unknown variant name is accepted")
            if x.r is None:
                ck.require("%s: rejected with ValueError" % tag, any(q.d["exc"] == "ValueError" for q in rs), where,
                           "an unknown variant raises %s" % sorted({q.d["exc"] for q in rs}))
            ck.count("unknown_names")
        ck.guard("c03 unknown %s/%s" % (m, im), unknown)

    def defaults():
        e = base.engine()
        st = State({}, dict(e.base_heap))
        m = e.get_module("bm25s")
        e.cur_mod = m
        o = e.call(m.env["BM25"], [], {}, st, None)
        for n, v in (("k1", 1.5), ("b", 0.75), ("delta", 0.5), ("method", "lucene"), ("idf_method", "lucene")):
            ck.same("BM25(): documented default of %s" % n, field(e, st, o, n), const(v), "BM25.__init__")
        ck.use(e)
    ck.guard("c03 defaults", defaults)


def c04(ck):
    """the corpus statistics that enter the scores"""
    where = "BM25.build_index_from_ids"
    res = []
    for m in METHODS:
        def one():
            x = build(ck, m, m)
            tag = "method=%s" % m
            if not shape_obligations(ck, x, tag):
                return
            df, tf = stats(x, x.col)
            got = assume_entry(x, x.col, x.val)
            want = assume_entry(x, x.col, full(x, m, m, df, tf))
            ok = got.key == want.key
            res.append((m, ok, got, want))
            v = tm.fresh()
            u = setseq(mkset(x.U))
            h = index(u, v)
            dfh = tm.sumc(length(x.C), contains_(h, index(x.C, tm.lvh(0) if False else v)), ONE, v)
            good = [alloc_tokens(x).key, alloc_docs(x).key]
            for s, nm in zip(x.sizes, ("scores", "document ids", "token ids")):
                if s.op == "empty_arr":
                    if s.a[0].key in good:
                        ck.add("%s: array of %s has one slot per entry" % (tag, nm), OK)
                    else:
                        ck.add("%s: array of %s has one slot per entry" % (tag, nm), UNDEC if opaque_ops(s.a[0]) or not wrong_size(x, s.a[0]) else BAD,
                               "allocated size: %s" % show(s.a[0])[:300], where)
            ck.same("%s: matrix has a row per document" % tag, index(x.shape, ZERO), length(x.C), where)
            ncol = index(x.shape, ONE)
            ck.require("%s: matrix has a column per token" % tag, True if ncol.key in (length(x.U).key, length(setseq(mkset(x.U))).key) else False, where,
                       "columns: %s" % show(ncol)[:200], closed=not opaque_ops(ncol))
            ck.same("%s: number of documents stored" % tag, index(x.r, const("num_docs")), length(x.C), where)
        ck.guard("c04 %s" % m, one)
    for m, ok, got, want in res:
        tag = "method=%s: document frequency, collection size, term frequency and length normalisation" % m
        ck.count("variants")
        if ok:
            ck.add(tag, OK)
            continue
        ops = opaque_ops(got)
        extra = stat_atoms(got) - stat_atoms(want)
        if ops:
            ck.add(tag, UNDEC, "not modelled: %s" % ops, where)
        elif extra or not any(o for _, o, _, _ in res):
            ck.add(tag, BAD, "the statistics that enter the score are not (document frequency = number of documents containing the token, N, occurrences of the token, document length, mean document length)\n      computed: %s\n      required: %s" % (
                show(got)[:1500], show(want)[:1500]), where)
        else:
            ck.add(tag, UNDEC, "the formula differs but reads the right statistics (see C01)", where)


def alloc_tokens(x):
    u = setseq(mkset(x.U))
    v, w = tm.fresh(), tm.fresh()
    return tm.sumc(length(u), TRUE, tm.sumc(length(x.C), contains_(index(u, v), index(x.C, w)), ONE, w), v)


def alloc_docs(x):
    v = tm.fresh()
    return tm.sumc(length(x.C), TRUE, length(tm.keys_(mk("counter", index(x.C, v)))), v)


def wrong_size(x, s):
    """a size that differs from the number of entries for some corpus"""
    v = tm.fresh()
    tot = tm.sumc(length(x.C), TRUE, length(index(x.C, v)), v)
    u = setseq(mkset(x.U))
    bad = {tot.key, mul(length(x.C), length(x.U)).key, mul(length(x.C), length(u)).key, length(x.C).key, length(x.U).key}
    if s.key in bad:
        return True
    for w in (alloc_tokens(x), alloc_docs(x)):
        d = sub(s, w)
        if tm.numval(d) is not None and tm.numval(d) != 0:
            return True
    return False


def stat_atoms(t):
    return {y.key for y in tm.find_ops(t, "sumc", "len", "index", "sum") if tm.contains(y, lambda z: z.op == "sym" and z.a[0] == "corpus") and y.op in ("sumc", "len")}


def c05(ck):
    """baseline: stored value + baseline = formula for documents with the token; baseline = formula at tf 0; other variants have none"""
    where = "BM25.build_index_from_ids"
    for m in ("bm25l", "bm25+"):
        for im in ([m, "lucene"] if ck.tier == "quick" else METHODS):
            def one():
                x = build(ck, m, im)
                tag = "method=%s idf=%s" % (m, im)
                if not x.ok:
                    ck.add("%s: baseline" % tag, UNDEC, x.why, where)
                    return
                t = x.col
                df, tf = stats(x, t)
                b = assume_entry(x, t, index(x.nonocc, t))
                ck.same("%s: baseline = score of a document without the token" % tag, b,
                        assume_entry(x, t, mul(idf_spec(im, df, x.ndocs), tf_spec(m, ZERO, x.avg, x.avg))), where,
                        "the baseline of a token is not its score at term frequency 0")
                tot = assume_entry(x, t, add(x.val, index(x.nonocc, t)))
                ck.same("%s: stored score + baseline = full score" % tag, tot,
                        assume_entry(x, t, mul(idf_spec(im, df, x.ndocs), tf_spec(m, tf, x.L, x.avg))), where,
                        "adding the baseline back to the stored score does not give the score of the variant")
                ck.count("variants")
            ck.guard("c05 %s %s" % (m, im), one)
    for m in ("lucene", "robertson", "atire"):
        def two():
            x = build(ck, m, "bm25l")
            ck.same("method=%s: no baseline" % m, x.nonocc, NONEV, where, "a variant without baseline has one")
            ck.count("variants")
        ck.guard("c05 %s" % m, two)


def c39(ck):
    """vocabulary tokens that occur in no document do not make indexing fail"""
    where = "BM25.build_index_from_ids"
    for m in METHODS:
        for im in METHODS:
            def one():
                x = build(ck, m, im)
                tag = "method=%s idf=%s" % (m, im)
                t = S("t", INT)
                n = 0
                for q in effects(x.e, "div", "mathlog"):
                    den = q.d["den"] if q.kind == "div" else q.d["arg"]
                    pc = pc_of(q)
                    zero = {}
                    for y in tm.find_ops(den, "sumc") + tm.find_ops(pc, "sumc"):
                        if y.a[0].key == length(x.C).key and y.a[1] is not TRUE:
                            zero[y] = ZERO
                    if not zero:
                        continue
                    n += 1
                    d0 = tm.replace(den, zero)
                    p0 = tm.replace(pc, zero)
                    if p0 is FALSE:
                        continue
                    if d0.key == ZERO.key or tm.is_zero(d0):
                        ck.add("%s: division and logarithm defined for a token of no document" % tag, BAD, "%s divides by (or takes the logarithm of) 0 when no document contains the token" % q.where, q.where)
                        return
                ck.count("sites", n)
                ck.add("%s: division and logarithm defined for a token of no document" % tag, OK if x.r is not None else UNDEC)
            ck.guard("c39 %s %s" % (m, im), one)
