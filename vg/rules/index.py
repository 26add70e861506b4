"""C12 (inputs are not modified), C34 (vocabulary and index agree), C14 (optional dependencies)."""
from .base import *  # noqa
from . import base, scoring
from .query import readonly, roots_written, setup, retrieve, SELF, Q_STR, Q_INT, K, WM, rejected, selection_args

BUILD = "bm25s.BM25.build_index_from_ids"
I_ = S("ids", ListOf(ListOf(INT, nonempty=True), nonempty=True))
V_ = S("vocab", DictOf(NAT))
D_, IX, P_ = S("built_data", Arr(FLOAT)), S("built_indices", Arr(INT)), S("built_indptr", Ty("array", INT))
N_ = S("built_num_docs", NAT)
NN = S("built_baseline", Arr(FLOAT))


class Idx:
    pass


def index(ck, corpus, create, baseline, kind_):
    """abstract run of BM25.index with the matrix builder replaced by its contract"""
    e = base.engine()
    e.opaque_loops = True
    x = Idx()
    x.built = []
    bm_types(e, [("nonoccurrence_array", Arr(FLOAT))], method="bm25l" if baseline else "lucene")
    if not baseline:
        e.attr_vals[(BM, "nonoccurrence_array")] = NONEV
    e.attr_types[(TUP, "ids")] = ListOf(ListOf(INT))
    e.attr_types[(TUP, "vocab")] = DictOf(NAT)

    def ic(eng, st, fn, args, kwargs, node):
        env = eng.bind(fn, args, kwargs, st)
        x.built.append({k: eng.resolve(v, st) for k, v in env.items()})
        eng.set_attr(SELF, "nonoccurrence_array", NN if baseline else NONEV, st)
        return eng.alloc(st, mk("dict", tuple((const(n), v) for n, v in (("data", D_), ("indices", IX), ("indptr", P_), ("num_docs", N_))), ty=Ty("dict")))
    e.intercept[BUILD] = ic
    st = State({}, dict(e.base_heap))
    r, st = call(e, "bm25s", "BM25.index", [SELF, corpus], {"create_empty_token": TRUE if create else FALSE}, st)
    ck.use(e)
    x.e, x.st = e, st
    x.f = {n: field(e, st, SELF, n) for n in ("scores", "vocab_dict", "unique_token_ids_set", "nonoccurrence_array")}
    return x


def norm_new_id(t, v):
    """IDs are 0..n-1, so the number of entries and the largest ID plus one are the same next ID"""
    big = tm.find_ops(t, "maxof")
    m = {}
    for x in big:
        if tm.contains(x, lambda z: z.key == v.key):
            m[add(ONE, x)] = length(v)
            m[x] = sub(length(v), ONE)
    return tm.replace(t, m) if m else t


def appended(t, base_, what):
    """t is base_ followed by exactly one element; the element (None: not recognised)"""
    t = strip(t)
    if t.op == "concat_l":
        parts = list(t.a[0])
        if len(parts) == 2 and strip(parts[0]).key == base_.key:
            return strip(parts[1])
    return None


def two_tokens(ck, create, rev):
    """two different tokens have different IDs, also when a known string operation makes them equal"""
    from .tok import KNOWN_STR
    where = "BM25.index"
    a, b, c = S("token_a", STR), S("token_b", STR), S("common_form", STR)
    tag = "two different tokens, create_empty_token=%s" % create
    e_ = const("")
    lits = [(tm.eq(a, b), False), (tm.eq(a, e_), False), (tm.eq(b, e_), False), (tm.eq(a, c), False), (tm.eq(b, c), False), (tm.eq(c, e_), False)]
    tm.SETORDER[0] = rev
    try:
        with tm.knowing(lits):
            x = index(ck, tm.tlist([tm.tlist([a, b]), tm.tlist([b])]), create, False, "two")
            ck.count("index_runs")
            if len(x.built) != 1:
                ck.add("%s: different IDs" % tag, UNDEC, "%d builds" % len(x.built), where)
                return
            ids = x.built[0]["corpus_token_ids"]
            A, B, B2 = (tm.index(tm.index(ids, const(i)), const(j)) for i, j in ((0, 0), (0, 1), (1, 0)))
            d = tm.eq(A, B)
            bad, why = d is TRUE, "both get the ID %s" % show(A)[:200]
            if d is not TRUE and d is not FALSE:
                m = {}
                for z in tm.find_ops(mk("tuple", (A, B)), "strm", "lower"):
                    y = z.a[1] if z.op == "strm" else z.a[0]
                    if y.key in (a.key, b.key) and (z.op == "lower" or z.a[0] in KNOWN_STR):
                        m[z] = c
                A1, B1 = tm.replace(A, m), tm.replace(B, m)
                bad, why = tm.eq(A1, B1) is TRUE, "they share an ID when %s" % " == ".join(sorted(show(z) for z in m))[:300]
            ck.require("%s: different IDs" % tag, d is FALSE, where, why, closed=bad)
            ck.require("%s: one ID per token" % tag, tm.eq(B, B2) is TRUE, where, "the token has the IDs %s and %s" % (show(B)[:150], show(B2)[:150]),
                       closed=tm.eq(B, B2) is FALSE)
    finally:
        tm.SETORDER[0] = False


def c34(ck):
    where = "BM25.index"
    for kind_, c in (("pair", tm.ttuple([I_, V_])), ("object", tokd(I_, V_))):
        for create in (True, False):
            for bl in (True, False):
                def one():
                    x = index(ck, c, create, bl, kind_)
                    ids, v = I_, V_
                    tag = "%s, create_empty_token=%s, baseline=%s" % (kind_, create, bl)
                    ck.count("index_runs")
                    if len(x.built) != 1:
                        ck.require("%s: the matrix is built once" % tag, False if not x.built else None, where, "%d builds" % len(x.built))
                        return
                    b = x.built[0]
                    got = {k: y for k, y in b.items() if k not in ("self",)}
                    ck.same("%s: the given token IDs are indexed as they are" % tag, got.get("corpus_token_ids"), ids, where, "other token IDs are indexed")
                    ck.same("%s: one column per vocabulary entry" % tag, length(got["unique_token_ids"]) if got.get("unique_token_ids") is not None else None,
                            length(v), where, "the number of columns is not the size of the vocabulary")
                    after(ck, tag, x, v, create, bl, where)
                ck.guard("c34 %s" % kind_, one)
    for ty, nm in ((STR, "string tokens"), (INT, "integer tokens")):
        for create in (True, False):
            def two():
                T_ = S("T", ListOf(ListOf(ty, nonempty=True), nonempty=True))
                x = index(ck, T_, create, True, nm)
                tag = "%s, create_empty_token=%s" % (nm, create)
                ck.count("index_runs")
                if len(x.built) != 1:
                    ck.require("%s: the matrix is built once" % tag, False if not x.built else None, where, "%d builds" % len(x.built))
                    return
                b = x.built[0]
                # a corpus with at least one token, and no negative integer token
                asm = {}
                for t in list(b.values()) + list(x.f.values()):
                    for z in tm.find_ops(t, "lt0", "anyc"):
                        if z.op == "anyc" or z.key == tm.cmp("<", length(setseq(tm.flat(T_))), ONE).key:
                            asm[z.key] = False
                ids = tm.restrict(b["corpus_token_ids"], asm)
                U = tm.restrict(b["unique_token_ids"], asm)
                f = {k: tm.restrict(y, asm) for k, y in x.f.items()}
                v = f["vocab_dict"]
                if create:
                    ats = [z for z in tm.find_ops(v, "in") if z.a[0].key == const("").key]
                    v0 = tm.restrict(v, {z.key: True for z in ats})
                    if v0.op == "setitem" and v0.a[1].key == const("").key:
                        v0 = v0.a[0]
                else:
                    v0 = v
                i, j = S("i", NAT), S("j", NAT)
                row = E.elem_of(E.elem_of(ids, i), j)
                tok = tm.index(tm.index(T_, i), j)
                ck.same("%s: a document's IDs are its tokens looked up in the vocabulary" % tag, row, tok if ty is INT else tm.index(v0, tok), where,
                        "the ID indexed for a token is not the vocabulary's ID of it")
                ck.same("%s: every token of a document is indexed" % tag, length(E.elem_of(ids, i)), length(tm.index(T_, i)), where, "another number of tokens")
                ck.same("%s: every document is indexed" % tag, length(ids), length(T_), where, "another number of documents")
                ck.same("%s: one column per vocabulary entry" % tag, length(U), length(v0), where, "the number of columns is not the size of the vocabulary")
                ck.same("%s: vocabulary IDs are consecutive from 0" % tag, E.elem_of(tm.values_(v0), i), i, where, "the ID of the i-th vocabulary entry is not i")
                ck.same("%s: the vocabulary holds the corpus's tokens" % tag, E.elem_of(tm.keys_(v0), i),
                        i if ty is INT else tm.index(setseq(tm.flat(T_)), i), where, "other keys")
                x.f = f
                after(ck, tag, x, v0, create, True, where)
            ck.guard("c34 %s" % nm, two)
    for create in (True, False):
        for rev in (False, True):
            ck.guard("c34 distinct tokens", lambda: two_tokens(ck, create, rev))
    for lv in (True, False):
        def three():
            e = base.engine()
            r, st = call(e, "bm25s", "BM25.load", [S("dir", STR)], {"load_vocab": TRUE if lv else FALSE})
            ck.use(e)
            ck.count("load_runs")
            if r is None:
                ck.add("load: analysed", UNDEC)
                return
            ref = last_obj(e, st)
            voc, ids = field(e, st, ref, "vocab_dict"), field(e, st, ref, "unique_token_ids_set")
            ck.same("load(load_vocab=%s): the set of IDs is that of the vocabulary" % lv, setseq(ids), setseq(tm.values_(voc)), "BM25.load",
                    "the set of token IDs does not belong to the loaded vocabulary")
        ck.guard("c34 load", three)


def last_obj(e, st):
    """the BM25 object built last on the abstract heap"""
    best = None
    for k, l in e.locs.items():
        c = st.heap.get(k)
        if c is not None and c.op == "obj" and c.a[0] == BM:
            best = l
    return best


def after(ck, tag, x, v, create, bl, where):
    """state left by index(): vocabulary v possibly extended by the empty token, arrays extended with it"""
    empty = E.contains_(const(""), v)
    voc, sc, uniq, nn = x.f["vocab_dict"], x.f["scores"], x.f["unique_token_ids_set"], x.f["nonoccurrence_array"]

    def both(t):
        a = tm.restrict(t, {empty.key: True}) if tm.is_atom(empty) else (t if empty is TRUE else None)
        b = tm.restrict(t, {empty.key: False}) if tm.is_atom(empty) else (t if empty is FALSE else None)
        return a, b
    ids_set = setseq(tm.values_(voc))
    ck.same("%s: the set of token IDs is that of the vocabulary" % tag, setseq(uniq), ids_set, where, "unique_token_ids_set differs from the vocabulary's IDs")
    for has, k in (("with \"\" in the vocabulary", 0), ("without \"\" in the vocabulary", 1)):
        vv, ss, mm = both(voc)[k], both(sc)[k], both(nn)[k]
        if vv is None:
            continue
        t2 = "%s, %s" % (tag, has)
        parts = {n: strip(tm.index(ss, const(n))) for n in ("data", "indices", "indptr", "num_docs")}
        for n, w in (("data", D_), ("indices", IX), ("num_docs", N_)):
            ck.same("%s: %s as built" % (t2, n), parts[n], w, where, "%s of the index is not what was built" % n)
        if not create or k == 0:
            ck.same("%s: vocabulary unchanged" % t2, vv, v, where, "the vocabulary differs from the given one")
            ck.same("%s: column pointers unchanged" % t2, parts["indptr"], P_, where, "a column was added without a vocabulary entry")
            ck.same("%s: baseline unchanged" % t2, strip(mm), NN if bl else NONEV, where, "the baseline array changed without a vocabulary entry")
            continue
        want = mk("setitem", v, const(""), length(v), ty=v.ty)
        got = norm_new_id(vv, v)
        if got.op == "setitem" and got.a[0].key == v.key and got.a[1].key == const("").key:
            ck.same("%s: the empty token gets the next free ID" % t2, got.a[2], length(v), where, "the ID of the empty token is not the first one after the vocabulary")
        else:
            ck.same("%s: the vocabulary gains the empty token only" % t2, got, want, where, "vocabulary after index()")
        el = appended(parts["indptr"], P_, "column pointer")
        if el is None:
            ck.same("%s: one column is added for the empty token" % t2, parts["indptr"], mk("concat_l", (P_, tm.tlist([tm.index(P_, const(-1))]))), where,
                    "no (or not exactly one) column is added with the vocabulary entry")
        else:
            last = {tm.index(P_, const(-1)).key, length(D_).key, length(IX).key, tm.index(P_, sub(length(P_), ONE)).key, tm.slice_(P_, const(-1), NONEV).key}
            e0 = tm.index(el, ZERO) if el.op in ("list", "tuple") else el
            one_ = length(el).key == ONE.key or el.key in last or kind(el) in ("int",) or tm.slice_(P_, const(-1), NONEV).key == el.key
            ck.require("%s: exactly one column is added for the empty token" % t2, True if one_ else None, where, show(el)[:200])
            ck.require("%s: the empty token's column has no postings" % t2, True if (e0.key in last or el.key in last) else None if opaque_ops(e0) else False, where,
                       "the added column pointer is %s" % show(e0)[:200])
        if bl:
            el = appended(mm, NN, "baseline")
            if el is None:
                ck.same("%s: the baseline gains one entry" % t2, strip(mm), mk("concat_l", (NN, tm.tlist([ZERO]))), where,
                        "the baseline array has no entry for the empty token")
            else:
                z = E.elem_of(el, ZERO) if kind(el) in ("array", "list", "tuple") or el.op in ("zeros", "list") else el
                ck.same("%s: the baseline of the empty token is 0" % t2, strip(z), ZERO, where, "the empty token's baseline is not 0")
                if el.op in ("zeros", "list", "filled"):
                    ck.same("%s: the baseline gains exactly one entry" % t2, length(el), ONE, where, "another number of entries")
        else:
            ck.same("%s: no baseline" % t2, strip(mm), NONEV, where, "a baseline appears for a variant without one")


# ---------------------------------------------------------------------------------------------- C12
def c12(ck):
    anydoc = S("corpus", ListOf(None))
    forms = [("string tokens", S("T", ListOf(ListOf(STR)))), ("integer tokens", S("T", ListOf(ListOf(INT)))),
             ("pair", tm.ttuple([S("ids", ListOf(ListOf(INT))), S("vocab", DictOf(NAT))])), ("object", tokd(S("ids", ListOf(ListOf(INT))), S("vocab", DictOf(NAT))))]
    for m in ("lucene", "bm25l", "bm25+", "robertson", "atire"):
        if m in ("robertson", "atire", "bm25+") and ck.tier != "thorough":
            continue
        for nm, c in forms:
            for create in (True, False):
                def one():
                    e = base.engine()
                    bm_types(e, [("nonoccurrence_array", Arr(FLOAT))], method=m)
                    e.attr_types[(TUP, "ids")] = ListOf(ListOf(INT))
                    e.attr_types[(TUP, "vocab")] = DictOf(NAT)
                    e.attr_vals[(BM, "corpus")] = S("corpus", ListOf(None))
                    st = State({}, dict(e.base_heap))
                    call(e, "bm25s", "BM25.index", [SELF, c], {"create_empty_token": TRUE if create else FALSE}, st)
                    ck.use(e)
                    ck.count("index_runs")
                    readonly(ck, "index method=%s, %s, create_empty_token=%s" % (m, nm, create), e, ("T", "ids", "vocab", "corpus"), "BM25.index")
                ck.guard("c12 index %s %s" % (m, nm), one)
    for m in ("lucene", "bm25l"):
        for nm, dt in (("strings", STR), ("dictionaries", DictOf(None)), ("lists", ListOf(STR)), ("any documents", None), ("no corpus", 0)):
            for own in (True, False):
                for avail in ({}, {"orjson": True}):
                    def two():
                        from .io import typed
                        e = base.engine(avail=avail)
                        typed(e, m, m == "bm25l")
                        c = S("corpus", ListOf(dt)) if dt != 0 else NONEV
                        kw = {}
                        if own:
                            e.attr_vals[(BM, "corpus")] = c
                        else:
                            kw["corpus"] = c
                        st = State({}, dict(e.base_heap))
                        call(e, "bm25s", "BM25.save", [SELF, S("dir", STR)], kw, st)
                        ck.use(e)
                        ck.count("save_runs")
                        readonly(ck, "save method=%s, %s, %s%s" % (m, nm, "own corpus" if own else "corpus given", ", orjson" if avail else ""), e,
                                 ("self", "corpus", "dir"), "BM25.save")
                    ck.guard("c12 save %s %s" % (m, nm), two)
    texts, stop = S("texts", ListOf(STR)), S("stop", ListOf(STR))
    stemmer = S("stemmer", FUNC)
    for st_ in (True, False):
        for ids in (True, False):
            def three():
                e = base.engine()
                st = State({}, dict(e.base_heap))
                call(e, "bm25s", "tokenize", [texts], {"stopwords": stop, "stemmer": stemmer if st_ else NONEV, "return_ids": TRUE if ids else FALSE,
                                                       "show_progress": FALSE}, st)
                ck.use(e)
                ck.count("tokenize_runs")
                readonly(ck, "tokenize stemmer=%s, return_ids=%s" % (st_, ids), e, ("texts", "stop"), "tokenize")
            ck.guard("c12 tokenize", three)
        for upd in (TRUE, FALSE, const("never"), const("if_empty")):
            def four():
                e = base.engine()
                st = State({}, dict(e.base_heap))
                m, cls = lookup(e, "bm25s.tokenization", "Tokenizer", st)
                e.cur_mod = m
                o = e.call(cls, [], {"stopwords": stop, "stemmer": stemmer if st_ else NONEV}, st, None)
                e.call(e.get_attr(o, "tokenize", st), [texts], {"update_vocab": upd, "show_progress": FALSE}, st, None)
                ck.use(e)
                ck.count("tokenize_runs")
                readonly(ck, "Tokenizer.tokenize stemmer=%s, update_vocab=%s" % (st_, show(upd)), e, ("texts", "stop"), "Tokenizer.tokenize")
            ck.guard("c12 Tokenizer", four)
    docs, queries = S("docs", ListOf(ListOf(INT))), S("query", ListOf(STR, nonempty=True))
    ids = S("query_ids", ListOf(INT, nonempty=True))
    for st_ in (True, False):
        def five():
            from .tok import Scene, T, DW
            for meth in ("decode", "to_tokenized_tuple"):
                sc = Scene(st_)
                call(sc.e, "bm25s.tokenization", "Tokenizer." + meth, [T, docs], {}, State({}, dict(sc.e.base_heap)))
                ck.use(sc.e)
                ck.count("other_runs")
                readonly(ck, "Tokenizer.%s, stemmer=%s" % (meth, st_), sc.e, ("docs",), "Tokenizer." + meth)
            sc = Scene(st_)
            sc.e.attr_types[(TUP, "ids")] = ListOf(ListOf(INT))
            sc.e.attr_types[(TUP, "vocab")] = DW
            call(sc.e, "bm25s.tokenization", "convert_tokenized_to_string_list", [tokd(docs, S("vocab", DW))], {}, State({}, dict(sc.e.base_heap)))
            ck.use(sc.e)
            ck.count("other_runs")
            readonly(ck, "convert_tokenized_to_string_list, stemmer=%s" % st_, sc.e, ("docs", "vocab"), "convert_tokenized_to_string_list")
        ck.guard("c12 decoding", five)
    for m in ("lucene", "bm25l"):
        for fn, q in (("get_scores", queries), ("get_scores", ids), ("get_scores_from_ids", ids), ("get_tokens_ids", queries)):
            def six():
                e = base.engine()
                typed_(e, m)
                st = State({}, dict(e.base_heap))
                call(e, "bm25s", "BM25." + fn, [SELF, q], {}, st)
                ck.use(e)
                ck.count("other_runs")
                readonly(ck, "%s of %s, method=%s" % (fn, q.a[0], m), e, ("query", "query_ids"), "BM25." + fn)
            ck.guard("c12 %s" % fn, six)


def typed_(e, m):
    from .io import typed
    typed(e, m, m == "bm25l")
