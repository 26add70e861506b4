"""C06-C11, C13, C15 (query side), C33: scores, masks, selection and documents of a query."""
import re
from .base import *  # noqa
from . import base

GETITEM = JSONL + ".__getitem__"
KNOWN_ATTRS = {"scores", "nonoccurrence_array", "vocab_dict", "unique_token_ids_set", "corpus", "backend", "dtype", "int_dtype",
               "k1", "b", "delta", "method", "idf_method", "ndim", "shape", "mmap_obj", "file_obj", "mmindex", "path", "encoding", "ids", "vocab"}
Q_INT = ListOf(ListOf(INT, nonempty=True), nonempty=True)
Q_STR = ListOf(ListOf(STR, nonempty=True), nonempty=True)
SELF = S("self", Obj(BM))
WM = S("wm", Arr(FLOAT))
K = S("k", NAT)


def foreign_attrs(t):
    return any(x.a[1] not in KNOWN_ATTRS for x in tm.find_ops(t, "attr") if isinstance(x.a[1], str)) or \
        any(x.a[0].a[0] != GETITEM and not x.a[0].a[0].startswith("bm25s.numba.selection.") for x in tm.find_ops(t, "app"))


def setup(nonocc=True, backend="numpy", avail=None, opaque=(GETITEM,), **kw):
    e = base.engine(avail=avail, **kw)
    e.opaque_loops = True
    e.opaque_calls |= set(opaque)
    bm_types(e, [("nonoccurrence_array", Arr(FLOAT)), ("unique_token_ids_set", Ty("set", INT)), ("vocab_dict", DictOf(INT))],
             method="lucene", backend=backend, corpus=NONEV)
    if not nonocc:
        e.attr_vals[(BM, "nonoccurrence_array")] = NONEV
    return e, State({}, dict(e.base_heap))


class Ret:
    pass


def retrieve(ck, be="numpy", qt=Q_STR, wm=True, nonocc=True, corpus=None, avail=None, opaque=(GETITEM,), pre=None, **kw):
    e, st = setup(nonocc, be, avail, opaque)
    if pre:
        pre(e, st)
    a = dict(weight_mask=(WM if wm is True else wm if wm else NONEV), k=K, n_threads=ZERO)
    if corpus is not None:
        a["corpus"] = corpus
    a.update({k: (v if isinstance(v, tm.T) else const(v)) for k, v in kw.items()})
    r, st = call(e, "bm25s", "BM25.retrieve", [SELF, S("Q", qt) if not isinstance(qt, tm.T) else qt], a, st)
    ck.use(e)
    x = Ret()
    x.e, x.st, x.r = e, st, r
    x.docs = x.scores = None
    if r is not None and r.op == "nt" and len(r.a[1]) == 2:
        x.docs, x.scores = r.a[1]
    return x


def selection_args(t, ops=("argpart", "argsort", "app", "sortarr")):
    """maximal score arrays that selection (argpartition, argsort, top-k function) works on"""
    out = {}
    for x in tm.find_ops(t, *ops):
        for s in x.a:
            if isinstance(s, tm.T) and tm.find_ops(s, "sadd", "zeros") and not tm.find_ops(s, "argpart", "argsort", "app"):
                out[s.key] = s
    return list(out.values())


def score_spec(q, nonocc=False, wm=False):
    sc = attr(SELF, "scores")
    d, ix, ip, nd = (index(sc, const(n)) for n in ("data", "indices", "indptr", "num_docs"))
    h = tm.fresh()
    t = index(q, h)
    lo, hi = index(ip, t), index(ip, add(t, ONE))
    n = length(q)
    r = E.sadd(mk("zeros", nd, "F", ty=Ty("array", FLOAT)), tm.flat(tm.comp(n, TRUE, tm.slice_(ix, lo, hi), h)),
               tm.flat(tm.comp(n, TRUE, tm.slice_(d, lo, hi), h)))
    if nonocc:
        v = tm.fresh()
        r = add(r, tm.sumc(n, TRUE, index(attr(SELF, "nonoccurrence_array", Arr(FLOAT)), index(q, v)), v))
    if wm:
        r = mul(r, WM)
    return r


def known_ids(q):
    """the IDs of the query's tokens that are in the vocabulary (strings)"""
    v = tm.fresh()
    voc = attr(SELF, "vocab_dict", DictOf(INT))
    return tm.comp(length(q), contains_(index(q, v), voc), index(voc, index(q, v)), v)


def filtered_ids(q):
    """the IDs of the query that the index knows (integers)"""
    v = tm.fresh()
    u = attr(SELF, "unique_token_ids_set", Ty("set", INT))
    return tm.comp(length(q), contains_(index(q, v), u), index(q, v), v)


def empty_id():
    return index(attr(SELF, "vocab_dict", DictOf(INT)), const(""))


def direct(ck, meth, args, nonocc=True, wm=False, pre=None, avail=None):
    e, st = setup(nonocc, avail=avail)
    if pre:
        call(e, "bm25s", "BM25." + pre, [SELF], {}, st)
    a = {"weight_mask": WM} if wm else {}
    r, st = call(e, "bm25s", "BM25." + meth, [SELF] + args, a, st)
    ck.use(e)
    return e, r


def row_scores(x, h, every=False):
    """the score array that row h of the result is selected from"""
    row = index(x.docs, h)
    s = selection_args(row)
    if every:
        return s
    return s[0] if len(s) == 1 else None


def strip_cast(t):
    return tm.rebuild(t, lambda z: z.a[0] if z.op == "cast" else z) if False else t


def query_scores(ck, wms=(False,), noccs=(True, False)):
    """(name, computed, required, where) for every path a score takes"""
    q_int, q_str = S("q", ListOf(INT, nonempty=True)), S("q", ListOf(STR, nonempty=True))
    for wm in wms:
        for no in noccs:
            tag = "%s%s" % ("baseline " if no else "", "mask" if wm else "")
            for nm, args, q in (("get_scores_from_ids", [q_int], q_int), ("get_scores", [q_int], q_int), ("get_scores", [q_str], known_ids(q_str))):
                for pre in (None, "activate_numba_scorer"):
                    e, r = direct(ck, nm, args, nonocc=no, wm=wm, pre=pre)
                    yield ("%s(%s) %s%s" % (nm, "IDs" if q is q_int else "strings", tag, " numba scorer" if pre else ""), r, score_spec(q, no, wm), "BM25." + nm)
            for be in ("numpy", "numba"):
                for qt, nm, opts in ((Q_STR, "strings", {}), (Q_INT, "IDs", {}), (Q_STR, "strings, any options", {
                        "n_threads": const(2), "sorted": S("srt", BOOL), "chunksize": S("cs", NAT), "show_progress": S("sp", BOOL), "leave_progress": S("lp", BOOL)})):
                    x = retrieve(ck, be, qt, wm=wm, nonocc=no, **opts)
                    name = "retrieve backend=%s %s %s" % (be, nm, tag)
                    if x.docs is None:
                        yield (name, None, None, "BM25.retrieve")
                        continue
                    h = S("h", NAT)
                    Qh = index(S("Q", qt), h)
                    gots = row_scores(x, h, True)
                    if not gots:
                        yield (name, None, None, "BM25.retrieve")
                        continue
                    if qt is Q_STR:
                        want = score_spec(known_ids(Qh), no, wm)
                    else:
                        f = filtered_ids(Qh)
                        want = ite(tm.cmp("<", length(f), ONE), score_spec(tm.tlist([empty_id()]), no, wm), score_spec(f, no, wm))
                    for got in gots:
                        yield (name, got, want, "BM25.retrieve")


def c06(ck):
    for name, got, want, where in query_scores(ck):
        ck.count("query_paths")
        ck.same("score = sum of the postings of the query's tokens, with multiplicity: " + name, got, want, where,
                "the score of a query is not the sum of its tokens' contributions", undec=foreign_attrs)

    def single():
        # queries of one and of two tokens, tokens with no or one posting included
        ip = index(attr(SELF, "scores"), const("indptr"))
        t, u = S("t", NAT), S("u", NAT)
        for no in (False, True):
            for ts in ((t,), (t, u)):
                q = tm.tlist(list(ts))
                for pre in (None, "activate_numba_scorer"):
                    e, r = direct(ck, "get_scores_from_ids", [q], nonocc=no, pre=pre)
                    for n in (None, 0, 1):
                        m = {index(ip, add(t, ONE)): add(index(ip, t), const(n))} if n is not None else {}
                        got, want = (tm.replace(y, m) if m and y is not None else y for y in (r, score_spec(q, no, False)))
                        ck.count("short_queries")
                        ck.same("a query of %d tokens%s%s%s" % (len(ts), ", the first with %d postings" % n if n is not None else "", " baseline" if no else "", " numba scorer" if pre else ""),
                                got, want, "BM25.get_scores_from_ids", "the score of a query is not the sum of its tokens' contributions", undec=foreign_attrs)
    ck.guard("c06 short queries", single)

    def legacy():
        e = base.engine()
        m = e.get_module("bm25s.scoring")
        n = 0
        for fn in ("_compute_relevance_from_scores_legacy", "_compute_relevance_from_scores_jit_ready"):
            if fn not in m.env:
                continue
            n += 1
            a = dict(data=S("data", Arr(FLOAT)), indptr=S("indptr", Arr(INT)), indices=S("indices", Arr(INT)), num_docs=S("nd", NAT),
                     query_tokens_ids=S("q", Arr(INT)), dtype=S("dtype", STR))
            r, st = call(e, "bm25s.scoring", fn, [], a)
            h = tm.fresh()
            t = index(a["query_tokens_ids"], h)
            lo, hi = index(a["indptr"], t), index(a["indptr"], add(t, ONE))
            want = E.sadd(mk("zeros", a["num_docs"], "F", ty=Ty("array", FLOAT)), tm.flat(tm.comp(length(a["query_tokens_ids"]), TRUE, tm.slice_(a["indices"], lo, hi), h)),
                          tm.flat(tm.comp(length(a["query_tokens_ids"]), TRUE, tm.slice_(a["data"], lo, hi), h)))
            g = r
            if r is not None:
                A = {tm.cmp("<", length(a["query_tokens_ids"]), ONE).key: False}
                g, want = tm.restrict(r, A), tm.restrict(want, A)
            ck.same("scoring.%s agrees with the other scorers" % fn, g, want, "bm25s.scoring." + fn)
        ck.use(e)
        ck.count("standalone_scorers", n)
    ck.guard("c06 standalone scorers", legacy)


def raises(e, assume=None, kinds=None):
    """disjunction of the conditions under which an uncaught exception leaves (at top level, outside loops)"""
    r = FALSE
    for x in effects(e, "raise"):
        if x.d["caught"] or (kinds and x.d["exc"] not in kinds):
            continue
        p = pc_of(x)
        if assume:
            p = tm.restrict(p, assume)
        if p.fv:
            continue
        r = tm.lor(r, p)
    return r


def raise_cond(e, exc="ValueError", assume=None, repl=None, keep=None):
    """condition (disjunction over all uncaught raises of exc) under which a call is rejected; the variables of enclosing
    loops are named canonically, so that raises in the same iteration combine (a loop over the queries runs at least once)"""
    r = FALSE
    for x in effects(e, "raise"):
        if x.d["caught"] or (exc and x.d["exc"] != exc):
            continue
        p = pc_of(x)
        if keep and not keep(p):
            continue
        vs = {l[2]: mk("sym", "iter%d" % i, ty=NAT) for i, l in enumerate(x.loops) if l[2] is not None}
        if vs:
            p = tm.replace(p, vs)
        if repl:
            p = repl(p)
        if assume:
            p = tm.restrict(p, assume)
        r = tm.lor(r, p)
    return r


def rejected(e, r, assume=None, exc="ValueError", repl=None):
    """True: every path raises exc; False: some path returns; None: unknown"""
    if r is None:
        ks = {x.d["exc"] for x in effects(e, "raise") if not x.d["caught"]}
        return True if exc in ks else False
    p = raise_cond(e, exc, assume, repl)
    if p is TRUE:
        return True
    if p is FALSE:
        return False
    return None if opaque_ops(p) or tm.find_ops(p, "app", "anyc", "len") else False


def c07(ck):
    for name, got, want, where in query_scores(ck, wms=(True,)):
        ck.count("query_paths")
        ck.same("the mask multiplies the complete score: " + name, got, want, where,
                "the score of a document is not its complete score times its weight", undec=foreign_attrs)

    def validation():
        for be in ("numpy", "numba"):
            x = retrieve(ck, be, wm=S("wm", ListOf(FLOAT)))
            ck.require("%s: a weight mask that is not an array is rejected" % be, rejected(x.e, x.r), "BM25.retrieve", "a list is accepted as weight mask")
            x = retrieve(ck, be)
            nd = index(attr(SELF, "scores"), const("num_docs"))
            ln = length(WM)
            for what, m in (("longer", {ln: add(add(nd, ONE), S("surplus", NAT))}), ("shorter", {nd: add(add(ln, ONE), S("surplus", NAT))})):
                q = raise_cond(x.e, "ValueError", {y.key: False for f in effects(x.e, "raise") for c in f.pc for y in tm.find_ops(c, "lt0") if tm.contains(y, lambda z: z.key == K.key)},
                               lambda p: tm.replace(p, m), lambda p: tm.contains(p, lambda z: z.key == ln.key))
                if q is not TRUE:
                    # (whatever the number of dimensions)
                    q = tm.restrict(q, {y.key: True for y in tm.find_ops(q, "eq0") if any(z.a[1] == "ndim" for z in tm.find_ops(y, "attr"))})
                ck.require("%s: a weight mask %s than the corpus is rejected" % (be, what), True if q is TRUE else None if opaque_ops(q) or tm.find_ops(q, "app", "anyc") else False,
                           "BM25.retrieve", "a mask with %s values than documents is rejected only when %s" % ("more" if what == "longer" else "fewer", show(q)[:200]))
            a = {tm.eq(mk("attr", WM, "ndim", ty=NAT), ONE).key: False, tm.eq(attr(WM, "ndim"), ONE).key: False}
            a.update({y.key: False for q in effects(x.e, "raise") for c in q.pc for y in tm.find_ops(c, "eq0") if any(
                z.a[1] == "ndim" for z in tm.find_ops(y, "attr"))})
            ck.require("%s: a weight mask that is not one-dimensional is rejected" % be, rejected(x.e, x.r, a), "BM25.retrieve",
                       "no rejection of a mask with another number of dimensions")
            ck.count("validations", 4)
    ck.guard("c07 validation", validation)


# ---------------------------------------------------------------- selection

def top_set(idx, sc, k):
    """does idx select positions of the k largest values of sc?  True/False/None"""
    n = length(sc)
    neg = tm.neg(k)
    if idx.op == "gather" and strip(idx.a[0], ("arr", "cast")).op in ("slice", "gather") and \
            strip(idx.a[1], ("arr", "cast", "flip")).op == "argsort":
        r = top_set(strip(idx.a[0], ("arr", "cast")), sc, k)      # a permutation of the selected positions
        if r is not None:
            return r
    if idx.op == "gather" or idx.op == "slice":
        b = idx.a[0]
        while b.op in ("arr", "cast"):
            b = b.a[0]
        rev = False
        if b.op == "flip":
            rev, b = True, b.a[0]
        part = b.op == "argpart"
        full = b.op == "argsort"
        if not (part or full) or b.a[0].key not in (sc.key, tm.neg(sc).key):
            return None
        desc = b.a[0].key == tm.neg(sc).key and sc.key != tm.neg(sc).key
        if rev:
            if part:
                return None
            desc = not desc
        # which positions are taken
        pos = None
        if idx.op == "gather":
            r = idx.a[1]
            if r.op == "gather":
                r = r.a[0]      # a permutation of the taken positions follows
            if r.op == "range":
                lo, hi = r.a[0], r.a[1]
                pos = ("tail" if lo.key in (neg.key, sub(n, k).key) and (tm.is_zero(hi) or hi.key == n.key) else
                       "head" if tm.is_zero(lo) and hi.key == k.key else "other")
        else:
            lo, hi = idx.a[1], idx.a[2]
            pos = ("tail" if lo.key in (neg.key, sub(n, k).key) and (hi is NONEV or hi.key == n.key) else
                   "head" if (lo is NONEV or tm.is_zero(lo)) and hi.key == k.key else "other")
        if pos is None:
            return None
        if part:
            kth = b.a[1]
            if not desc:
                return pos == "tail" and kth.key in (neg.key, sub(n, k).key)
            return pos == "head" and kth.key in (sub(k, ONE).key, k.key)
        return pos == ("head" if desc else "tail")
    return None


def perm_of(t):
    """t = Y[p] with p a permutation that sorts Y: 'desc', 'asc' or None"""
    for g in [t]:
        while g.op in ("arr", "cast"):
            g = g.a[0]
        if g.op == "phi":
            rs = [perm_of(y) for y in g.a[1:]]
            if rs[0] == rs[1]:
                return rs[0]
            for i in (0, 1):
                if rs[i] is None and untouched(g.a[1 + i], g.a[2 - i]):
                    return "unsorted"
            for r in rs:
                if r in ("asc", "unrelated", "unsorted"):
                    return r
            return None
        if g.op == "flip":
            r = perm_of(g.a[0])
            return {"asc": "desc", "desc": "asc"}.get(r)
        if g.op != "gather":
            return None
        # flatten nested index permutations: gather(S, gather(I, p)) or gather(S, gather(A, gather(range, p)))
        chain = []
        y = g
        base_ = g.a[0]
        ix = g.a[1]
        while True:
            chain.append(base_)
            if ix.op == "gather":
                base_, ix = ix.a
                continue
            break
        p = ix
        rev = False
        if p.op == "flip":
            rev, p = True, p.a[0]
        if p.op != "argsort":
            return None
        # the values in the order before p: gather over the chain without p
        pre = chain[-1]
        for b in reversed(chain[:-1]):
            pre = tm.gather(b, pre)
        key = p.a[0]
        if key.key == pre.key:
            return "desc" if rev else "asc"
        if key.key == tm.neg(pre).key:
            return "asc" if rev else "desc"
        return "unrelated"


def value_order(t):
    """values in ascending or descending order: how the equal ones are ordered, and how the order is obtained, makes no difference"""
    t = strip(t, ("arr", "cast"))
    if t.op == "phi":
        return tm.ite(t.a[0], value_order(t.a[1]), value_order(t.a[2]))
    o = perm_of(t)
    if o not in ("asc", "desc"):
        return t
    g = t
    while g.op in ("flip", "arr", "cast"):
        g = g.a[0]
    chain, y = [], g
    base_, ix = g.a
    while True:
        chain.append(base_)
        if ix.op != "gather":
            break
        base_, ix = ix.a
    pre = chain[-1]
    for b in reversed(chain[:-1]):
        pre = tm.gather(b, pre)
    if pre.op == "gather" and pre.a[1].op == "gather" and pre.a[1].a[1].op == "range":
        pass
    return mk("in_order", const(o), pre, ty=t.ty)


def untouched(y, other):
    """is y the array that `other` takes elements of, in the order that it has?"""
    y = strip(y)
    if y.op == "phi":
        return untouched(y.a[1], other) and untouched(y.a[2], other)
    j = S("pos", NAT)
    if y.op == "gather" and index(strip(y.a[1]), j).key == j.key:
        y = strip(y.a[0])
    other = strip(other)
    while other.op in ("gather", "flip"):
        other = strip(other.a[0])
        if other.key == y.key:
            return True
    return False


def app_of(t):
    while t.op in ("arr", "cast"):
        t = t.a[0]
    if t.op == "index" and t.a[0].op == "app":
        return t.a[0], t.a[1]
    return None, None


def poly_at(t, vals):
    """the value of a polynomial over the given terms, or None"""
    if t.op == "const":
        return t.a[0] if isinstance(t.a[0], (int, float)) or tm.numval(t) is not None else None
    if t.key in vals:
        return vals[t.key]
    if t.op != "poly":
        return None
    r = 0
    for c, m in t.a[0]:
        x = c
        for f, e in m:
            y = poly_at(f, vals)
            if y is None or e < 0:
                return None
            x = x * y ** e
        r = r + x
    return r


def size_cases(ts, k, n):
    """conditions on the number of results and of documents alone -> the cases that some 1 <= k <= n satisfy"""
    atoms = {}
    for t in ts:
        for z in tm.find_ops(t, "lt0", "eq0"):
            if poly_at(z.a[0], {k.key: 1, n.key: 1}) is not None:
                atoms[z.key] = z
    atoms = list(atoms.values())
    if not atoms or len(atoms) > 4:
        return [({}, "")]
    seen = {}
    bounds = sorted({1, 2, 3, 5, 17, 33, 65, 101, 129, 257, 1001, 1025, 10 ** 4 + 1, 10 ** 5 + 1, 10 ** 6 + 1, 10 ** 9})
    for a in atoms:
        for z in tm.find_ops(a.a[0], "poly") or []:
            for c, m in z.a[0]:
                if not m:
                    b = abs(int(c))
                    bounds = sorted(set(bounds) | {max(b - 1, 1), max(b, 1), b + 1})
    for kv in bounds:
        for nv in bounds:
            if kv <= nv:
                sig = tuple((poly_at(a.a[0], {k.key: kv, n.key: nv}) < 0) if a.op == "lt0" else (poly_at(a.a[0], {k.key: kv, n.key: nv}) == 0) for a in atoms)
                if kv > seen.get(sig, (0,))[0] < 2:
                    seen[sig] = (kv, nv)
    return [({a.key: v for a, v in zip(atoms, sig)}, " (k=%d of %d documents)" % kn) for sig, kn in sorted(seen.items(), key=lambda p: p[1])]


def select_obligations(ck, tag, docs, scores, sc, k, srt, where, e):
    r = None
    for asm, nm in size_cases([docs, scores], k, length(sc)):
        d, s = (tm.restrict(y, asm) for y in (docs, scores))
        x = select_case(ck, tag + nm, d, s, sc, k, srt, where, e)
        r = x if r is None or r[0] != "app" else r
    return r


def select_case(ck, tag, docs, scores, sc, k, srt, where, e):
    if "(k=1 of" in tag:
        srt = False         # a single result is in order
    a1, i1 = app_of(docs)
    a2, i2 = app_of(scores)
    if a1 is not None and a2 is not None:
        ck.require("%s: scores and documents come from one selection" % tag, a1.key == a2.key and i1.key != i2.key, where,
                   "documents: %s\n      scores: %s" % (show(a1)[:200], show(a2)[:200]))
        kk = [z for z in a1.a[2:] if z.key == k.key]
        ck.require("%s: k results are selected" % tag, bool(kk), where, "the selection is called with %s" % [show(z)[:60] for z in a1.a[2:]],
                   closed=not any(opaque_ops(z) for z in a1.a[2:]))
        return ("app", a1, i1, i2)
    ops = opaque_ops(docs) + opaque_ops(scores)
    got = tm.gather(sc, docs) if not ops else None
    if got is not None and got.key != scores.key and not opaque_ops(got):
        got, scores2 = value_order(got), value_order(scores)
    else:
        scores2 = scores
    ck.same("%s: each returned score is the score of the returned document" % tag, scores2, got, where,
            "scores and documents are not parallel")
    ts = top_set(docs, sc, k)
    ck.require("%s: the k best documents are selected" % tag, ts, where, "selected: %s" % show(docs)[:300], closed=not ops)
    if srt:
        o = perm_of(scores)
        if o is None and tm.find_ops(scores, "argpart") and not tm.find_ops(scores, "argsort", "sortarr", "sorted", "phi", "app", "call", "callres"):
            o = "that of a partition"
        ck.require("%s: scores are returned in descending order" % tag, None if o is None and ops else o == "desc" if o is not None else None, where,
                   "the order of the returned scores is %s: %s" % (o, show(scores)[:300]), closed=not ops)
    return ("np",)


def c08(ck):
    from . import heap
    apps = {}

    def one(be, qt, srt):
        x = retrieve(ck, be, qt, sorted=srt, wm=False, nonocc=False)
        tag = "retrieve backend=%s sorted=%s" % (be, srt)
        ck.count("selection_paths")
        if x.docs is None:
            ck.add(tag, UNDEC, "no result")
            return
        h = S("h", NAT)
        sc = row_scores(x, h)
        if sc is None:
            ck.add(tag, UNDEC, "score array not found")
            return
        SC = S("SC", Arr(FLOAT))
        d, s = (strip(tm.replace(tm.replace(index(y, h), {sc: SC}), {length(sc): length(SC)}), ("arr", "cast")) for y in (x.docs, x.scores))
        r = select_obligations(ck, tag, d, s, SC, K, srt, "BM25.retrieve", x.e)
        if r[0] == "app":
            apps[(r[1].a[0].a[0], srt)] = (r[2], r[3], r[1].a[3:])
    for be in ("numpy", "numba"):
        for srt in (True, False):
            ck.guard("c08 %s %s" % (be, srt), lambda: one(be, Q_STR, srt))

    def numba_in_numpy(srt):
        x = retrieve(ck, "numpy", Q_STR, sorted=srt, wm=False, nonocc=False, backend_selection="numba")
        tag = "retrieve backend=numpy, selection=numba, sorted=%s" % srt
        ck.count("selection_paths")
        h = S("h", NAT)
        d, s = strip(index(x.docs, h), ("arr", "cast")), strip(index(x.scores, h), ("arr", "cast"))
        a = {y.key: y for y in tm.find_ops(d, "app") + tm.find_ops(s, "app")}
        if len(a) != 1:
            ck.require("%s: scores and documents come from one selection" % tag, None, "selection.topk", "%d selections" % len(a))
            return
        ap = list(a.values())[0]
        V, I = S("V", Arr(FLOAT)), S("I", Arr(INT))
        # which component is the score array is settled by the order in which the function is known to return (scores, indices)
        d2, s2 = (tm.replace(y, {index(ap, ZERO): V, index(ap, ONE): I}) for y in (d, s))
        p1 = d2.a[1] if d2.op == "gather" and d2.a[0].key == I.key else None if d2.key != I.key else NONEV
        p2 = s2.a[1] if s2.op == "gather" and s2.a[0].key == V.key else None if s2.key != V.key else NONEV
        ck.require("%s: scores and documents are permuted alike" % tag, (p1 is not None and p2 is not None and p1.key == p2.key), "selection.topk",
                   "documents: %s scores: %s" % (show(d2)[:150], show(s2)[:150]), closed=not opaque_ops(d2) and not opaque_ops(s2))
        ck.require("%s: k results are selected" % tag, any(z.key == K.key for z in ap.a[2:]), "selection.topk", show(ap)[:200])
        if srt:
            if s2.op == "gather":
                o = perm_of(s2)
                ck.require("%s: scores are returned in descending order" % tag, o == "desc" if o is not None or not opaque_ops(s2) else None, "selection.topk", "order: %s" % o)
            else:
                apps.setdefault((ap.a[0].a[0], True), (ONE, ZERO, ap.a[3:]))
        apps.setdefault((ap.a[0].a[0], False), (ONE, ZERO, tuple(FALSE for _ in ap.a[3:])))
    for srt in (True, False):
        ck.guard("c08 numba selection %s" % srt, lambda: numba_in_numpy(srt))

    def jax():
        x = retrieve(ck, "numpy", Q_STR, wm=False, nonocc=False, backend_selection="jax", avail={"jax": True})
        h = S("h", NAT)
        d, s = strip(index(x.docs, h), ("arr", "cast")), strip(index(x.scores, h), ("arr", "cast"))
        cs = {y.key: y for y in tm.find_ops(d, "call", "callres") + tm.find_ops(s, "call", "callres") if "top_k" in show(y)[:80]}
        ck.count("selection_paths")
        if len(cs) != 1:
            ck.add("retrieve selection=jax: scores and documents come from one selection", UNDEC, "%d calls" % len(cs))
            return
        c = list(cs.values())[0]
        ck.require("retrieve selection=jax: scores and documents come from one selection", d.key == index(c, ONE).key and s.key == index(c, ZERO).key,
                   "selection._topk_jax", "jax.lax.top_k returns (values, indices); documents=%s scores=%s" % (show(d)[-60:], show(s)[-60:]))
        ck.require("retrieve selection=jax: k results are selected", tm.contains(c, lambda z: z.key == K.key), "selection._topk_jax", show(c)[-100:])
    ck.guard("c08 jax", jax)
    for (fn, srt), (i_doc, i_score, extra) in sorted(apps.items(), key=lambda p: (p[0][0], p[0][1])):
        ck.guard("c08 %s" % fn, lambda: heap.check(ck, fn, srt, i_doc, i_score, extra))


# ---------------------------------------------------------------- documents

FAMILIES = (("str", "numpy.str_"), ("bytes", "numpy.bytes_"), ("int", "bool", "numpy.integer", "numpy.int64", "numpy.int32"),
            ("float", "numpy.floating", "numpy.float64", "numpy.float32"), ("dict",))


def same_type(c, elem):
    """whether the condition c implies that all documents have one type: True / False / None (condition on the documents not understood).
    elem: predicate that recognises a document"""
    if c is TRUE:
        return False
    if c is tm.FALSE:
        return True
    if c.op == "not":
        return all_of_one_type(c.a[0], elem) if c.a[0].op == "anyc" else None
    if c.op == "phi":
        g = c.a[0]
        docs = any(elem(y) for y in tm.subterms(g))
        if docs and g.op == "isinst" and elem(g.a[0]):
            docs = False        # says something of one document only
        if docs and g.op != "anyc":
            return None
        t = same_type(c.a[1], elem)
        f = all_of_one_type(g, elem) if docs else False
        if f is not True:
            f2 = same_type(c.a[2], elem)
            f = True if f2 is True else None if None in (f, f2) else False
        return True if t is True and f is True else None if None in (t, f) else False
    if any(elem(y) for y in tm.subterms(c)) and c.op != "anyc" and not (c.op == "isinst" and elem(c.a[0])):
        return None
    return False


def all_of_one_type(c, elem):
    """the same for the negation of any(...)"""
    q = c.a[1]
    atoms = {}
    for y in tm.subterms(q):
        if y.op == "isinst":
            if not elem(y.a[0]):
                return None
            atoms[y.key] = y
    names = {k: type_name(y.a[1]) for k, y in atoms.items()}
    if None in names.values():
        return None
    may = set()
    for t in set(names.values()) | {"?"}:
        r = tm.restrict(q, {k: n == t for k, n in names.items()})
        if r is not TRUE and r is not tm.FALSE:
            return None
        if r is tm.FALSE:
            may.add(t)
    return any(may <= set(f) for f in FAMILIES)


def type_name(t):
    t = t.a[0] if isinstance(t, tm.T) and t.a else t
    return t if isinstance(t, str) else None


def coercions(ck, tag, e, isdoc, where):
    """numpy converts a list of documents of different types (or of arrays) to something else"""
    for x in e.effects:
        if x.kind != "nparray" or x.d["dc"] == "O":
            continue
        q = strip(x.d["seq"], ("arr",))
        if q.op == "loc":
            continue
        v = tm.fresh()
        if not isdoc(index(q, v)):
            continue
        ck.count("conversions")
        res = [same_type(c, isdoc) for c in x.pc if any(isdoc(y) for y in tm.subterms(c))]
        dt = x.d["dtype"]
        if dt is not None and dt is not NONEV:
            good = False if dt.op in ("const", "ext", "builtin") and any(res) is False or (dt.op == "const" and re.search(r"\d", str(dt.a[0]))) else None
        else:
            good = True if any(res) else None if None in res else False
        ck.require("%s: documents are put in an array as they are, whatever their types" % tag, good, where,
                   "documents of different types (or documents that are arrays) are converted by numpy at %s" % x.where)


def c09(ck):
    for be in ("numpy", "numba"):
        ref = retrieve(ck, be, Q_STR, wm=False, nonocc=False)

        def one(nm, corp, attr_corpus, ras, **kw):
            tag = "%s, documents from %s, return_as=%s" % (be, nm, ras)
            ck.count("document_sources")

            def pre(e, st):
                if attr_corpus:
                    e.attr_vals[(BM, "corpus")] = corp
            x = retrieve(ck, be, Q_STR, wm=False, nonocc=False, corpus=None if attr_corpus else corp, pre=pre, return_as=ras, **kw)
            if ref.docs is None or x.r is None:
                ck.add(tag, UNDEC, "no result", "BM25.retrieve")
                return
            docs = x.docs if ras == "tuple" else x.r
            if corp is NONEV:
                want = ref.docs
            elif kind(corp) == "list" or kind(corp) == "array":
                want = tm.gather(corp, ref.docs)
            else:
                want = mk("app", const(GETITEM), corp, ref.docs)
            A = {tm.eq(attr(corp, "ndim"), ONE).key: True}
            got = docs
            for y in tm.find_ops(docs, "eq0"):
                if any(z.a[1] == "ndim" for z in tm.find_ops(y, "attr")):
                    A[y.key] = True
            got = tm.restrict(docs, A)
            g, w = strip(got, ("arr",)), strip(want, ("arr",))
            if g.key == w.key:
                ck.add("%s: document [q][j] is the document of the j-th result of query q" % tag, OK)
            else:
                h, j = S("h", NAT), S("j", NAT)
                ga, wa = (index(index(strip(t, ("arr",)), h), j) for t in (got, want))
                if kind(corp) in ("list", "array"):
                    wa = index(corp, index(index(ref.docs, h), j))
                ck.same("%s: document [q][j] is the document of the j-th result of query q" % tag, ga, wa, "BM25.retrieve",
                        "documents and indices are not aligned", undec=foreign_attrs, allow=())
            if ras == "tuple":
                ck.same("%s: scores do not depend on the documents" % tag, strip(x.scores, ("arr",)), strip(ref.scores, ("arr",)), "BM25.retrieve", undec=foreign_attrs)
        corpora = [("no corpus", NONEV), ("a list of strings", S("corp", ListOf(STR))), ("a list of dictionaries", S("corp", ListOf(Ty("dict")))),
                   ("an array", S("corp", Ty("array", STR))), ("a JSONL corpus", S("corp", Obj(JSONL)))]
        for nm, c in corpora:
            for own in ((False, True) if c is not NONEV else (False,)):
                for ras in ("tuple", "documents"):
                    ck.guard("c09 %s %s %s" % (be, nm, ras), lambda: one(nm + (" of the retriever" if own else ""), c, own, ras))

        ck.guard("c09 %s threads" % be, lambda: one("a list of strings, any number of threads, any order", S("corp", ListOf(STR)), False, "tuple",
                                                    n_threads=S("nt", INT), chunksize=S("cs", INT), leave_progress=S("lp", BOOL), show_progress=S("sp", BOOL)))

    def both():
        # an explicit corpus has precedence over the retriever's own
        for be in ("numpy", "numba"):
            own, given = S("own", ListOf(STR)), S("corp", ListOf(STR))

            def pre(e, st):
                e.attr_vals[(BM, "corpus")] = own
            x = retrieve(ck, be, Q_STR, wm=False, nonocc=False, corpus=given, pre=pre)
            used = {y.a[0] for y in tm.find_ops(x.docs, "sym")} & {"own", "corp"}
            ck.require("%s: the corpus given to retrieve is used instead of the retriever's own" % be, used == {"corp"}, "BM25.retrieve",
                       "documents come from %s" % used, closed=not opaque_ops(x.docs))
    ck.guard("c09 precedence", both)

    def lists():
        e = base.engine()
        m = e.get_module("bm25s.utils.corpus")
        for be in ("numpy", "numba"):
            # documents that are lists or tuples are single elements of the result
            x = retrieve(ck, be, Q_STR, wm=False, nonocc=False, corpus=S("corp", ListOf(ListOf(STR))))
            ck.require("%s: documents that are lists are returned" % be, x.docs is not None, "BM25.retrieve")
            corp = S("corp", ListOf(Ty("any")))
            x = retrieve(ck, be, Q_STR, wm=False, nonocc=False, corpus=corp)

            def isdoc(y):
                return y.op in ("elem", "index", "at") and corp.key in {z.key for z in tm.find_ops(y, "sym")} and index(corp, y.a[1]).key == y.key
            coercions(ck, be, x.e, isdoc, "BM25.retrieve")
            ck.count("seen")
    ck.guard("c09 lists", lists)

    def merge():
        e = base.engine()
        st = State({}, dict(e.base_heap))
        m = e.get_module("bm25s")
        if "Results" not in m.env:
            raise Anchor("bm25s.Results not found")
        e.cur_mod = m
        rs = S("rs", ListOf(Obj("bm25s.Results")))
        r = e.resolve(e.call(e.get_attr(m.env["Results"], "merge", st), [rs], {}, st, None), st)
        ck.use(e)
        v = tm.fresh()
        for i, n in enumerate(("documents", "scores")):
            got = strip(e.get_attr(r, n, st), ("arr",))
            ck.same("Results.merge: %s are those of the parts, in order" % n, got, tm.flat(tm.comp(length(rs), TRUE, e.get_attr(index(rs, v), n, st), v)),
                    "Results.merge")
        n = e.resolve(e.call(e.builtin("len") if hasattr(e, "builtin") else mk("builtin", "len"), [r], {}, st, None), st) if False else None
    ck.guard("c09 merge", merge)


# ---------------------------------------------------------------- independence

def batch(ck, be, nm, el):
    """three queries in one batch: each row is that of its query alone"""
    qs = [S("Q%s" % x, ListOf(el, nonempty=True)) for x in "abc"]
    tag = "%s, three queries of %s" % (be, nm)
    alone = []
    for q in qs:
        x = retrieve(ck, be, tm.tlist([q]))
        alone.append(None if x.docs is None else [index(strip(t, ("arr", "cast")), ZERO) for t in (x.docs, x.scores)])
    for nt, n in ((0, 3), (1, 3), (2, 2), (3, 3)):
        x = retrieve(ck, be, tm.tlist(qs[:n]), n_threads=nt)
        ck.count("configurations")
        if x.docs is None:
            ck.require("%s, n_threads=%d: a result" % (tag, nt), None, "BM25.retrieve", "no result")
            continue
        for i, q in enumerate(qs[:n]):
            for k, (nme, t) in enumerate((("documents", x.docs), ("scores", x.scores))):
                row = index(strip(t, ("arr", "cast")), const(i))
                name = "%s, n_threads=%d: %s of query %d are those of the query alone" % (tag, nt, nme, i)
                other = sorted({y.a[0] for y in tm.find_ops(row, "sym") if y.a[0] in ("Qa", "Qb", "Qc") and y.key != q.key})
                if other and not opaque_ops(row):
                    ck.add(name, BAD, "row %d depends on query %s: %s" % (i, ", ".join(other), show(row)[:600]), "BM25.retrieve")
                    continue
                ck.same(name, row, alone[i] and alone[i][k], "BM25.retrieve", "the row differs from that of the query alone", undec=foreign_attrs)


def c10(ck):
    # (IDs with numba: the offsets of the rows depend on which queries are
    # empty after the filter, and literal rows are not separated; the symbolic
    # batch below covers it)
    for be, nm, el in (("numpy", "strings", STR), ("numpy", "IDs", INT), ("numba", "strings", STR)):
        ck.guard("c10 %s batch of %s" % (be, nm), lambda: batch(ck, be, nm, el))
    for be in ("numpy", "numba"):
        for qt, nm in ((Q_STR, "strings"), (Q_INT, "IDs")):
            def one():
                base_ = retrieve(ck, be, qt)
                tag = "%s, queries of %s" % (be, nm)
                if base_.docs is None:
                    ck.add(tag, UNDEC, "no result")
                    return
                Q = S("Q", qt)
                h = S("h", NAT)
                for nme, t in (("documents", base_.docs), ("scores", base_.scores)):
                    ck.count("results")
                    u = strip(t, ("arr", "cast"))
                    n = length(u)
                    ck.same("%s: one row of %s per query" % (tag, nme), n, length(Q), "BM25.retrieve", "the number of rows is not the number of queries")
                    row = index(u, h)
                    rest = tm.replace(row, {index(Q, h): S("Qh", ListOf(qt.elem.elem) if qt.elem is not None else None)})
                    dep = [y for y in tm.find_ops(rest, "sym") if y.a[0] in ("Q", "h")]
                    ck.require("%s: row q of the %s depends on query q only" % (tag, nme), not dep, "BM25.retrieve",
                               "row q depends on other queries or on the position of the query: %s" % show(rest)[:300], closed=not opaque_ops(row))
                variants = [(const(1), None), (const(4), None), (const(-1), None), (S("nt", NAT), None), (const(4), S("cs", NAT)), (ZERO, const(1))]
                if ck.tier == "thorough":
                    variants += [(S("nt", INT), S("cs", NAT)), (const(2), const(1)), (const(-1), const(7))]
                for nt, cs in variants:
                    kw = {"n_threads": nt}
                    if cs is not None:
                        kw["chunksize"] = cs
                    x = retrieve(ck, be, qt, **kw)
                    vt = "n_threads=%s%s" % (show(nt), "" if cs is None else " chunksize=%s" % show(cs))
                    ck.count("configurations")
                    for nme, t, b in (("documents", x.docs, base_.docs), ("scores", x.scores, base_.scores)):
                        ck.same("%s %s: same %s as sequential retrieval" % (tag, vt, nme), t, b, "BM25.retrieve",
                                "the result depends on the number of threads or the chunk size", undec=foreign_attrs)
                    if x.docs is not None and not (be == "numpy" and is_const(nt, 0) and not any(y.par for y in x.e.effects)):
                        shared(ck, x, "%s %s" % (tag, vt), Q)
                for kw in ({"show_progress": FALSE}, {"leave_progress": TRUE}):
                    x = retrieve(ck, be, qt, **kw)
                    ck.same("%s %s: progress display does not change the result" % (tag, list(kw)[0]), x.docs, base_.docs, "BM25.retrieve")
            ck.guard("c10 %s %s" % (be, nm), one)


def shared(ck, x, tag, Q):
    """no object created before the parallel loop over the queries is written inside it, except at the query's own row"""
    par = {}
    pool = any(y.par for y in effects(x.e, "app", "enter"))      # otherwise the loop itself may be the parallel one
    for y in effects(x.e, "app", "enter"):
        if pool and not y.par:
            continue
        f = y.d["func"]
        if y.kind == "app" or f.rpartition(".")[2] in ("get_scores", "get_scores_from_ids"):
            if y.loops and len(y.loops[0]) > 4 and y.loops[0][1].key == length(Q).key:
                par[y.loops[0][0]] = y.loops[0]
    bad = []
    n = 0
    for y in effects(x.e, "mutate", "maybe_mutate", "setattr", "setglobal"):
        if not y.loops or y.loops[0][0] not in par or pool and not y.par:
            continue
        L = y.loops[0]
        n += 1
        ref = y.d.get("ref")
        if y.kind in ("setglobal",):
            bad.append(y)
            continue
        while ref is not None and ref.op in ("index", "attr", "slice"):
            ref = ref.a[0]
        if ref is not None and ref.op == "loc" and isinstance(ref.a[0], int):
            if ref.a[0] <= L[4] and not (y.d.get("index") is not None and y.d["index"].key == L[2].key):
                bad.append(y)
        elif ref is not None and ref.op == "sym":
            bad.append(y)
    ck.count("writes_in_query_loop", n)
    ck.require("%s: queries processed concurrently share no written object" % tag, not bad, bad[0].where if bad else "BM25.retrieve",
               "%s writes an object that all queries share" % (bad[0].where if bad else ""))


# ---------------------------------------------------------------- read-only

def roots_written(e, names):
    out = []
    for y in effects(e, "mutate", "maybe_mutate", "setattr", "delattr", "consume"):
        r = y.d.get("root")
        if r is None and y.d.get("ref") is not None:
            r = e.rootof(y.d["ref"])[0]
        if r is not None and r.op == "sym" and r.a[0] in names and pc_of(y) is not FALSE:
            out.append((y, r.a[0], y.d.get("path", "")))
    return out


def readonly(ck, tag, e, names, where, kinds=("mutate", "setattr", "delattr")):
    ws = [(y, n, p) for y, n, p in roots_written(e, names) if y.kind in kinds]
    ck.require("%s: nothing reachable from %s is written" % (tag, ", ".join(names)), not ws, ws[0][0].where if ws else where,
               "; ".join("%s writes %s%s (%s)" % (y.where, n, p, y.d.get("how") or y.d.get("name")) for y, n, p in ws[:4]))
    g = [y for y in effects(e, "setglobal")]
    ck.require("%s: no module variable is written" % tag, not g, g[0].where if g else where, "; ".join("%s: %s" % (y.where, y.d["name"]) for y in g[:3]))


def c11(ck):
    for be in ("numpy", "numba"):
        for qt, nm in ((Q_STR, "strings"), (Q_INT, "IDs"), (None, "Tokenized"), (Ty("tuple"), "tuple")):
            for corp, cn in ((None, "no corpus"), (S("corp", ListOf(STR)), "list"), (S("corp", Ty("array", STR)), "array")):
                if nm == "Tokenized" and corp is not None and ck.tier != "thorough":
                    continue        # the handling of the corpus does not depend on the form of the queries

                def one():
                    q = S("Q", qt)
                    if nm == "tuple":
                        q = tm.ttuple([S("ids", Q_INT), S("vocab", DictOf(INT))])
                    elif nm == "Tokenized":
                        q = tokd(S("ids", Q_INT), S("vocab", DictOf(INT)))

                    def pre(e, st):
                        e.attr_types[(TUP, "ids")] = ListOf(ListOf(INT))
                        e.attr_types[(TUP, "vocab")] = DictOf(INT)
                    x = retrieve(ck, be, q, corpus=corp, pre=pre, n_threads=S("nt", INT))
                    ck.count("runs")
                    tag = "retrieve %s %s %s" % (be, nm, cn)
                    readonly(ck, tag, x.e, ("self", "Q", "ids", "vocab", "corp", "wm"), "BM25.retrieve")
                    if x.r is None:
                        ck.add(tag + ": analysed", UNDEC, "no result")
                ck.guard("c11 %s %s" % (be, nm), one)
    for nm, args in (("get_scores_from_ids", [S("q", ListOf(INT, nonempty=True))]), ("get_scores_from_ids", [S("q", Arr(INT))]),
                     ("get_scores", [S("q", ListOf(INT, nonempty=True))]),
                     ("get_scores", [S("q", ListOf(STR, nonempty=True))]), ("get_tokens_ids", [S("q", ListOf(STR))])):
        for pre in (None, "activate_numba_scorer"):
            def two():
                e, st = setup()
                if pre:
                    call(e, "bm25s", "BM25." + pre, [SELF], {}, st)
                k = len(e.effects)
                kw = {"weight_mask": WM} if nm != "get_tokens_ids" else {}
                call(e, "bm25s", "BM25." + nm, [SELF] + args, kw, st)
                ck.use(e)
                ck.count("runs")
                e.effects[:k] = []
                readonly(ck, "%s%s" % (nm, " (numba scorer)" if pre else ""), e, ("self", "q", "wm"), "BM25." + nm)
            ck.guard("c11 %s" % nm, two)

    def standalone():
        e = base.engine()
        for mod, fn, a in (("bm25s.selection", "topk", {"query_scores": S("s", Arr(FLOAT)), "k": K, "sorted": S("srt", BOOL), "backend": S("be", STR)}),
                           ("bm25s.numba.selection", "topk", {"query_scores": S("s", Arr(FLOAT)), "k": K, "sorted": S("srt", BOOL)})):
            e.opaque_loops = False
            call(e, mod, fn, [], a)
            ck.count("runs")
        ck.use(e)
        readonly(ck, "selection", e, ("s",), "selection.topk")
    ck.guard("c11 selection", standalone)


# ---------------------------------------------------------------- validity of token IDs

def c13(ck):
    # every access to the postings is dominated by the bounds checks
    for nm, args, q in (("get_scores_from_ids", [S("q", ListOf(INT, nonempty=True))], S("q", ListOf(INT, nonempty=True))),
                        ("get_scores", [S("q", ListOf(INT, nonempty=True))], S("q", ListOf(INT, nonempty=True)))):
        def one():
            e, r = direct(ck, nm, args)
            ck.count("entry_points")
            ip = index(attr(SELF, "scores"), const("indptr"))
            p = raises(e, None, {"ValueError"})
            lo = [y for y in tm.find_ops(p, "lt0", "minof") if tm.find_ops(y, "minof")]
            neg = bounds(p, q, ip)
            ck.require("%s: a negative token ID is rejected" % nm, neg[0], "BM25." + nm, "conditions of the rejection: %s" % show(p)[:300], closed=not opaque_ops(p))
            ck.require("%s: a token ID beyond the index is rejected" % nm, neg[1], "BM25." + nm, "conditions of the rejection: %s" % show(p)[:300], closed=not opaque_ops(p))
            ck.require("%s: every token ID of the index is accepted" % nm, neg[2], "BM25." + nm, "conditions of the rejection: %s" % show(p)[:300], closed=not opaque_ops(p))
        ck.guard("c13 %s" % nm, one)

    def strings():
        e, r = direct(ck, "get_tokens_ids", [S("q", ListOf(STR))])
        ck.same("get_tokens_ids: the known tokens' IDs in order, unknown tokens left out", r, known_ids(S("q", ListOf(STR))), "BM25.get_tokens_ids", undec=foreign_attrs)
        ck.count("entry_points")
    ck.guard("c13 strings", strings)
    for be in ("numpy", "numba"):
        def two():
            x = retrieve(ck, be, Q_INT, wm=False, nonocc=False)
            h = S("h", NAT)
            Qh = index(S("Q", Q_INT), h)
            got = row_scores(x, h) if x.docs is not None else None
            f = filtered_ids(Qh)
            want = ite(tm.cmp("<", length(f), ONE), score_spec(tm.tlist([empty_id()])), score_spec(f))
            ck.count("entry_points")
            ck.same("%s: token IDs that the index does not know are left out; a query without known IDs scores like the empty token" % be, got, want,
                    "BM25.retrieve", undec=foreign_attrs)
            # without an empty token such a query is rejected
            voc = attr(SELF, "vocab_dict", DictOf(INT))
            hit = [y for y in effects(x.e, "raise") if not y.d["caught"] and y.d["exc"] == "ValueError" and tm.contains(pc_of(y), lambda z: z.key == contains_(const(""), voc).key)]
            good = [y for y in hit if tm.restrict(pc_of(y), {contains_(const(""), voc).key: True}) is FALSE]
            ck.require("%s: a query without known IDs is rejected when there is no empty token" % be, bool(good), "BM25.retrieve",
                       "no ValueError when the index has no empty token")
        ck.guard("c13 %s" % be, two)

        def mixed():
            q0 = S("Qa", ListOf(INT, nonempty=True))
            x = retrieve(ck, be, tm.tlist([q0, tm.tlist([])]), wm=False, nonocc=False)
            got = row_scores(x, ONE) if x.docs is not None else None
            ck.count("entry_points")
            ck.same("%s: an empty query among queries of IDs scores like the empty token" % be, got, score_spec(tm.tlist([empty_id()])), "BM25.retrieve", undec=foreign_attrs)
        if be == "numpy":
            ck.guard("c13 %s empty query" % be, mixed)

        def three():
            x = retrieve(ck, be, Q_STR, wm=False, nonocc=False)
            h = S("h", NAT)
            got = row_scores(x, h) if x.docs is not None else None
            ck.count("entry_points")
            ck.same("%s: tokens that the index does not know are left out" % be, got, score_spec(known_ids(index(S("Q", Q_STR), h))), "BM25.retrieve", undec=foreign_attrs)
        ck.guard("c13 %s strings" % be, three)

        def four():
            # IDs without a loaded vocabulary are refused, not silently dropped
            def pre(e, st):
                e.attr_vals[(BM, "unique_token_ids_set")] = NONEV
            x = retrieve(ck, be, Q_INT, wm=False, nonocc=False, pre=pre)
            ck.require("%s: token IDs are rejected when the vocabulary was not loaded" % be, rejected(x.e, x.r), "BM25.retrieve", "no ValueError")
            ck.count("entry_points")
        ck.guard("c13 %s unloaded" % be, four)


def bounds(p, q, ip):
    """(rejects negative, rejects too large, accepts every valid ID) from the condition p under which the call is rejected"""
    n = sub(length(ip), ONE)
    p = tm.replace(p, {x: y for x in tm.find_ops(p, "anyc") for y in [extreme(x, q, n)] if y is not None})
    lows, highs = [], []
    for y in tm.find_ops(p, "lt0", "eq0"):
        if tm.find_ops(y, "minof"):
            lows.append(y)
        if tm.find_ops(y, "maxof"):
            highs.append(y)
    mins = {z.key: z for y in lows for z in tm.find_ops(y, "minof")}
    maxs = {z.key: z for y in highs for z in tm.find_ops(y, "maxof")}
    r = []
    if len(mins) == 1:
        mn = list(mins.values())[0]
        isneg = tm.cmp("<", mn, ZERO)
        r.append(tm.restrict(p, {isneg.key: True}) is TRUE and mn.a[0].key == q.key)
    else:
        r.append(False if not mins else None)
    if len(maxs) == 1:
        mx = list(maxs.values())[0]
        okc = tm.cmp("<", mx, n)
        r.append(tm.restrict(p, {okc.key: False}) is TRUE and mx.a[0].key == q.key)
        if len(mins) == 1:
            r.append(tm.restrict(p, {okc.key: True, isneg.key: False}) is FALSE)
        else:
            r.append(tm.restrict(p, {okc.key: True}) is FALSE)
    else:
        r.append(False if not maxs else None)
        r.append(None)
    return r


def extreme(x, q, n):
    """`some element of q is negative (or at least n)` said with the smallest and largest element"""
    N, (c,), v = tm.open_binder(x)
    if N.key != length(q).key:
        return None
    t = index(q, v)
    low, ok = tm.cmp("<", t, ZERO), tm.cmp("<", t, n)
    r = lambda lo, o: tm.restrict(c, {low.key: lo, ok.key: o})
    tab = (r(True, True), r(False, False), r(False, True))
    mn = tm.cmp("<", mk("minof", q, ZERO, NONEV, ty=tm.INT), ZERO)
    mx = lnot(tm.cmp("<", mk("maxof", q, ZERO, NONEV, ty=tm.INT), n))
    return {(TRUE, TRUE, FALSE): tm.lor(mn, mx), (TRUE, FALSE, FALSE): mn, (FALSE, TRUE, FALSE): mx}.get(tab)


# ---------------------------------------------------------------- invalid requests

def c15(ck):
    C = S("C", ListOf(STR))
    for be, kw in (("numpy", {}), ("numba", {}), ("numpy", {"backend_selection": "numba"}), ("numpy", {"backend_selection": "numpy"}), ("numpy", {"backend_selection": "jax"}),
                   ("numpy", {"corpus": C}), ("numba", {"corpus": C}), ("numpy", {"n_threads": S("nt", INT)}), ("numba", {"n_threads": S("nt", INT)}),
                   ("numba", {"return_as": "documents", "sorted": False}), ("numpy", {"return_as": "documents", "sorted": False})):
        def one():
            av = {"jax": True} if kw.get("backend_selection") == "jax" else None
            x = retrieve(ck, be, Q_STR, wm=False, nonocc=False, avail=av, opaque=(GETITEM, "bm25s.BM25.get_scores"),
                         **{"sorted": S("srt", BOOL), "show_progress": S("sp", BOOL), **kw})
            tag = "backend=%s %s" % (be, {a: show(v) if isinstance(v, tm.T) else v for a, v in kw.items()})
            ck.count("requests")
            nd = index(attr(SELF, "scores"), const("num_docs"))

            def at(extra):
                def f(p):
                    m = {length_of_scores(z): nd for z in tm.find_ops(p, "lt0", "eq0")}
                    return tm.replace(tm.replace(p, m) if m else p, {K: add(nd, extra)})
                return raise_cond(x.e, "ValueError", None, f, lambda p: tm.contains(p, lambda z: z.key == K.key))
            over = [at(ONE), at(add(ONE, S("surplus", NAT)))]
            opq = [p for p in over if opaque_ops(p) or tm.find_ops(p, "app", "anyc")]
            ck.require("%s: k larger than the corpus is rejected with ValueError" % tag,
                       True if all(p is TRUE for p in over) else None if opq else False, "BM25.retrieve",
                       "k > number of documents is rejected only when %s" % [show(p)[:200] for p in over if p is not TRUE])
            p = at(ZERO)
            ck.require("%s: k equal to the number of documents is accepted" % tag, True if p is FALSE else None if opaque_ops(p) or tm.find_ops(p, "app", "anyc") else False,
                       "BM25.retrieve", "k = number of documents is rejected when %s" % show(p)[:200])
        ck.guard("c15 k %s %s" % (be, kw), one)
    for be in ("numpy", "numba"):
        for kw, what in (({"return_as": "nosuch"}, "an unknown return_as"), ({"backend_selection": "nosuch"}, "an unknown backend_selection"),
                         ({"return_as": "docs"}, "an unknown return_as"), ({"return_as": "Tuple"}, "an unknown return_as"),
                         ({"return_as": ""}, "an empty return_as"), ({"return_as": "documents "}, "an unknown return_as"),
                         ({"backend_selection": ""}, "an empty backend_selection"), ({"backend_selection": "num"}, "an unknown backend_selection"),
                         ({"backend_selection": "NumPy"}, "an unknown backend_selection"), ({"backend_selection": "numbas"}, "an unknown backend_selection")):
            def two():
                x = retrieve(ck, be, Q_STR, wm=False, nonocc=False, opaque=(GETITEM, "bm25s.BM25.get_scores"), sorted=S("srt", BOOL), show_progress=S("sp", BOOL), **kw)
                ck.count("requests")
                # (a k that fits)
                at = {z.key: tm.replace(z, {K: ZERO}) for z in tm.find_ops(raise_cond(x.e), "lt0") if tm.contains(z, lambda w: w.key == K.key)}
                asm = {z: v is TRUE for z, v in at.items() if v is TRUE or v is FALSE}
                ok = rejected(x.e, x.r, asm)
                ck.require("backend=%s: %s is rejected with ValueError" % (be, what), ok, "BM25.retrieve", "%s is accepted" % kw)
            ck.guard("c15 %s" % kw, two)
    for q, what in ((S("Q", ListOf(STR, nonempty=True)), "a flat list of strings"), (S("Q", STR), "a string"),
                    (tm.ttuple([S(n, ListOf(ListOf(INT, nonempty=True), nonempty=True)) for n in "abc"]), "a tuple of three elements"),
                    (tm.ttuple([S("a", ListOf(ListOf(INT))), S("b", ListOf(STR))]), "a tuple whose second element is no vocabulary"),
                    (tm.ttuple([S("a", INT), S("b", DictOf(INT))]), "a tuple whose first element is no sequence")):
        def three():
            for be in ("numpy", "numba"):
                if be == "numpy" and kind(q) != "tuple":
                    continue
                x = retrieve(ck, be, q, wm=False, nonocc=False)
                ck.count("requests")
                # (a query list with at least one non-empty query)
                asm = {z.key: True for y in effects(x.e, "raise") for c in y.pc for z in tm.find_ops(c, "anyc")}
                ck.require("backend=%s: %s is rejected with ValueError" % (be, what), rejected(x.e, x.r, asm), "BM25.retrieve", "accepted")
        ck.guard("c15 %s" % what, three)
    for q, what in ((S("q", STR), "a string"), (S("q", Ty("tuple")), "a tuple"), (S("q", ListOf(FLOAT, nonempty=True)), "a list of floats")):
        def four():
            e, r = direct(ck, "get_scores", [q])
            ck.count("requests")
            ck.require("get_scores: %s is rejected with ValueError" % what, rejected(e, r), "BM25.get_scores", "accepted")
        ck.guard("c15 get_scores %s" % what, four)
    for c, what in ((S("c", INT), "a number"), (tm.ttuple([S("a", ListOf(ListOf(INT))), S("b", ListOf(STR))]), "a pair without a vocabulary")):
        def five():
            e, st = setup()
            r, st = call(e, "bm25s", "BM25.index", [SELF, c], {}, st)
            ck.use(e)
            ck.count("requests")
            ck.require("index: %s is rejected with ValueError" % what, rejected(e, r), "BM25.index", "accepted")
        ck.guard("c15 index %s" % what, five)


def length_of_scores(z):
    """the length of the score array compared with k in the atom z"""
    for y in tm.find_ops(z, "len"):
        if tm.find_ops(y, "app"):
            return y
    return index(attr(SELF, "scores"), const("num_docs"))


# ---------------------------------------------------------------- thread count

def c33(ck):
    for qt, nm in ((Q_STR, "strings"), (Q_INT, "IDs")):
        for nt in (ZERO, const(4), const(-1), S("nt", INT)):
            def one():
                x = retrieve(ck, "numba", qt, n_threads=nt)
                tag = "numba, %s, n_threads=%s" % (nm, show(nt))
                sets = effects(x.e, "nthreads_set")
                orig = mk("nthreads", mk("sym", "numba_threads", ty=NAT), ty=NAT)
                ck.count("thread_settings", len(sets))
                fin = x.st.heap.get(("g", "numba", "threads"), orig)
                ck.same("%s: thread count restored after a normal return" % tag, x.e.resolve(fin, x.st), orig, "numba.retrieve_utils",
                        "the number of numba threads is not the one before the call")
                for y in sets:
                    if y.d["value"].key == orig.key:
                        continue
                    back = [z for z in sets if z.seq > y.seq and z.d["value"].key == orig.key]
                    fids = {z.fin[0] for z in back if z.fin is not None and z.fin[1] == "exc"}
                    end = min([z.seq for z in back], default=10 ** 12)
                    out = [z for z in x.e.effects if y.seq < z.seq < end and not (set(z.prot) & fids) and not (z.fin and z.fin[0] in fids)]
                    out = [z for z in out if z.kind not in ("nthreads_get", "nthreads_set")]
                    ck.require("%s: thread count restored when the retrieval fails" % tag, bool(back) and not out, y.where,
                               "set at %s; %s" % (y.where, "an exception at %s leaves it changed" % out[0].where if out else "never restored"))
                if not sets:
                    ck.add("%s: thread count set" % tag, UNDEC, "no thread setting found")
            ck.guard("c33 %s" % nm, one)
