"""C29 (reading lines of a JSONL corpus), C30 (line index file, close and reload)."""
from .base import *  # noqa
from . import base
from .io import mm_path, std_mm_path, is_line_index, lt_

PATH = S("path", STR)
MMI = S("mmindex", ListOf(NAT))
STATEFUL_FILE = ("read", "readline", "readlines", "seek", "tell", "truncate")


def built(ck, have_index=True, index=MMI, **kw):
    """(engine, state, object) of a corpus opened on a file that has / has not a line index"""
    e = base.engine()
    p = E.path(PATH)
    e.fs = {p.key: S("content", STR)}
    if have_index:
        e.fs[mm_path(p).key] = mk("jdumps", index, (), ty=STR)
    kw.setdefault("verbosity", ZERO)
    kw.setdefault("show_progress", FALSE)
    st = State({}, dict(e.base_heap))
    m, cls = lookup(e, "bm25s.utils.corpus", "JsonlCorpus", st)
    e.cur_mod = m
    try:
        c = e.call(cls, [PATH], kw, st, None)
    except Dead:
        c = None
    e.fs = None
    ck.use(e)
    return e, st, c


def run(e, st, o, name, *args):
    m, _ = lookup(e, "bm25s.utils.corpus", "JsonlCorpus")
    e.cur_mod = m
    k = len(e.effects)
    pc, lits = st.pc, st.lits
    try:
        r = e.resolve(e.call(e.get_attr(o, name, st), list(args), {}, st, None), st)
    except Dead:
        r = None
    st.pc, st.lits = pc, lits
    return r, e.effects[k:]


def live(x):
    return pc_of(x) is not FALSE


def cases(t, F):
    """the value when no newline follows, and when one does"""
    a = tm.replace(t, {F: const(-1)})
    pos = mk("sym", "newline", ty=NAT)
    b = tm.replace(t, {F: pos})
    return a, b, pos


def mm_of(e, effs):
    return [x.d["ref"] for x in effs if x.kind == "mmap"]


def c29(ck):
    where = "JsonlCorpus.__getitem__"
    I = S("i", INT)

    def one():
        e, st, c = built(ck)
        if c is None:
            ck.add("a corpus can be opened", UNDEC, "the constructor does not return", "JsonlCorpus.__init__")
            return
        maps = mm_of(e, e.effects)
        r, effs = run(e, st, c, "__getitem__", I)
        ck.use(e)
        maps = {m.key for m in maps + mm_of(e, effs)}
        n = length(MMI)
        inr = {lt_(I, tm.neg(n)).key: False, lt_(add(n, const(-1)), I).key: False}
        for x in effs:
            if x.kind == "raise" and live(x):
                p = tm.restrict(pc_of(x), inr)
                ck.require("a valid index is accepted", p is FALSE, x.where, "%s is raised for an index between -n and n-1, when %s" % (x.d.get("exc"), show(p)[:300]),
                           closed=not opaque_ops(p, allow=("meth",)) and not tm.find_ops(p, "exc", "decode", "jloads"))
        if r is None:
            ck.add("an integer index gives a record", UNDEC, "no value is returned", where)
            return
        # reads leave the shared objects as they were
        for x in effs:
            if x.kind == "mmapop" and live(x):
                own = any(y.kind == "mmap" and y.d["ref"].key == x.d["ref"].key for y in effs)
                ck.require("reading does not use the position of the shared mapping", own or not x.d["stateful"], x.where,
                           "%s moves the position of the mapping, which concurrent readers share" % x.d["name"])
                ck.require("reading does not close the shared mapping", own or x.d["name"] != "close", x.where, "the mapping is closed by a read")
            if x.kind in ("close", "seek", "filepos") and live(x):
                v = x.d.get("value", x.d.get("ref"))
                own = any(y.kind == "open" and y.d.get("file") is not None and y.d["file"].key == v.key and y.seq < x.seq for y in effs)
                ck.require("reading does not close the shared file", own, x.where, "%s of the corpus file by a read" % x.kind)
        shared = tm.find_ops(r, "mmread", "fline", "fread", "cur")
        if shared:
            ck.require("an integer index gives the record of its line", None, where, "the record is read through %s" % show(shared[0])[:200])
            return
        history(ck, where, I)
        neg_i = {lt_(I, ZERO).key: True}
        pos_i = {lt_(I, ZERO).key: False}
        for nm, assum, starts in (("non-negative", pos_i, [index(MMI, I)]), ("negative", neg_i, [index(MMI, I), index(MMI, add(I, n))])):
            t = tm.restrict(tm.restrict(r, assum), inr)
            Fs = {x.key: x for x in tm.find_ops(t, "mmfind")}
            if not Fs and nm == "negative":
                # the last line, addressed as -1
                last = tm.restrict(tm.replace(r, {I: const(-1)}), {lt_(n, ONE).key: False, tm.eq(n, ZERO).key: False})
                sl = tm.find_ops(last, "slice")
                wrong = last.op == "jloads" and len(sl) == 1 and tm.is_const(sl[0].a[3], None) and sl[0].a[2].key == index(MMI, ZERO).key
                if wrong:
                    ck.add("a negative index gives the record of its line", BAD, "for index -1, the line ends at the start of the first line: %s" % show(last)[:300], where)
                    continue
            if len(Fs) != 1:
                ck.require("a %s index gives the record of its line" % nm, None, where, "the end of the line is not found by one search for a newline: %s" % show(t)[:300])
                continue
            F = list(Fs.values())[0]
            ck.require("the end of the line is the next newline (%s index)" % nm,
                       len(F.a) == 3 and F.a[0].key in maps and F.a[1].key == const(b"\n").key and F.a[2].key in [s.key for s in starts], where,
                       "the end of the line is searched by %s, the line starts at %s" % (show(F)[:300], show(starts[0])), closed=not opaque_ops(F))
            a, b, p = cases(t, F)
            m = F.a[0]
            for cn, got, ends in (("no newline follows", a, [NONEV, length(m)]), ("a newline follows", b, [p, add(p, ONE)])):
                want = [mk("jloads", mk("decode", tm.slice_(m, s, x, NONEV), const("utf-8"), ty=STR)) for s in starts for x in ends]
                ok = got.key in [w.key for w in want]
                ck.require("a %s index gives the record of its line when %s" % (nm, cn), ok, where,
                           "computed: %s\n      required: %s" % (show(got)[:500], show(want[0])[:500]), closed=not opaque_ops(got) and foreign(e, got, effs))
        # the other forms of index
        for nm, ix in (("a list", S("ix", ListOf(INT))), ("a tuple", S("ix", Ty("tuple", INT))), ("an array", S("ix", Arr(INT))), ("a slice", S("ix", Ty("slice")))):
            forms(ck, nm, ix, where)
        r, _ = run(e, st, c, "__len__")
        ck.same("the length is the number of lines", r, n, "JsonlCorpus.__len__", "len of the corpus")
    ck.guard("c29", one)
    ck.guard("c29 constructor", lambda: constructor(ck))


def history(ck, where, I):
    """does what is read depend on attributes that reading changes?"""
    e, st, c = built(ck)
    r0, effs = run(e, st, c, "__getitem__", I)
    names = {x.d["name"] for x in effs if x.kind == "setattr" and live(x) and c.id in (x.d["ref"].id, x.d["root"].id)}
    refs = {x.d["ref"].id for x in effs if x.kind == "mutate" and live(x) and isinstance(x.d["ref"], tm.T)}
    e, st, c = built(ck)
    for key in list(st.heap):
        if isinstance(key, tuple) and len(key) == 3 and key[0] == "f" and key[1] == c.id and isinstance(st.heap[key], tm.T):
            if key[2] in names or st.heap[key].id in refs:
                names.add(key[2])
                st.heap[key] = S("earlier value of %s" % key[2])
    if names:
        r, _ = run(e, st, c, "__getitem__", I)
        bad = [] if r is None else [x.a[0] for x in tm.find_ops(r, "sym") if str(x.a[0]).startswith("earlier value of")]
        ck.require("the record read does not depend on what was read before", None if r is None else not bad, where,
                   "the record returned depends on %s, which reading changes: records are shared between callers and concurrent readers" % ", ".join(sorted(set(bad))))
    else:
        ck.require("the record read does not depend on what was read before", True, where)


def foreign(e, t, effs):
    """no part of the value is an attribute that reading itself changes"""
    names = {x.d["name"] for x in effs if x.kind == "setattr"}
    return not any(x.a[1] in names for x in tm.find_ops(t, "attr"))


def forms(ck, nm, ix, where):
    e, st, c = built(ck)
    r, effs = run(e, st, c, "__getitem__", ix)
    ck.use(e)
    ck.count("index_forms")
    if r is None:
        ck.require("%s of indices is accepted" % nm, False if any(x.kind == "raise" and pc_of(x) is TRUE for x in effs) else None, where, "no value is returned for %s" % nm)
        return
    for x in effs:
        if x.kind == "mmapop" and live(x):
            ck.require("%s: reading does not use the position of the shared mapping" % nm, not x.d["stateful"], x.where, "%s moves the position of the shared mapping" % x.d["name"])
    seq = r
    I = ix
    if kind(ix) == "array":
        sh = tm.find_ops(r, "reshape")
        if not (r.op == "reshape" and len(r.a) == 2):
            ck.require("%s: the result has the shape of the array" % nm, None, where, "result %s" % show(r)[:300])
            return
        ck.same("%s: the result has the shape of the array" % nm, r.a[1], shape_of(e, ix, st), where, "the shape of the result differs")
        seq = strip(r.a[0])
        I = tm.mk("flatten", ix, ty=ix.ty)
    n = length(MMI)
    count = length(tm.srange(ix, n)) if kind(ix) == "slice" else length(I)
    got = length(seq)
    if kind(ix) == "array":
        ok = got.key in (length(I).key, length(ix).key)
        ck.require("%s: one record per index" % nm, ok, where, "%s records for %s" % (show(got), show(ix)), closed=not opaque_ops(got))
    else:
        ck.same("%s: one record per index" % nm, got, count, where, "number of records for %s" % nm)
    v = tm.fresh("j")
    g = index(seq, v)
    j = index(tm.srange(ix, n), v) if kind(ix) == "slice" else index(I, v)
    # the record of an integer index
    e2, st2, c2 = built(ck)
    w, _ = run(e2, st2, c2, "__getitem__", mk(j.op, *j.a, key=j.key, ty=INT) if j.ty is None else j)
    if kind(ix) == "array":
        from . import query

        leaves = set()

        def heads(y):
            if y.op == "phi":
                heads(y.a[1])
                heads(y.a[2])
            else:
                leaves.add(y.op)
        heads(g)

        def isrec(y):
            if y.op == "phi":
                return isrec(y.a[1]) or isrec(y.a[2])
            return y.op in leaves and any(z.op == "index" and z.a[0].key == I.key for z in tm.subterms(y))
        query.coercions(ck, nm, e, isrec, where)
    ck.same("%s: element j is the record of the j-th index" % nm, g, w, where, "element j of the result for %s" % nm)


def shape_of(e, x, st):
    return e.resolve(e.get_attr(x, "shape", st), st)


def constructor(ck):
    where = "JsonlCorpus.__init__"
    p = E.path(PATH)
    v = S("probe", NAT)
    for have in (True, False):
        for save in (True, False):
            tag = "%s, save_index=%s" % ("with a line index" if have else "without a line index", save)
            e, st, c = built(ck, have, save_index=const(save))
            ck.count("constructions")
            if c is None:
                ck.add("%s: a corpus can be opened" % tag, UNDEC, "the constructor does not return", where)
                continue
            r, _ = run(e, st, c, "__len__")
            I = S("i", INT)
            g, _ = run(e, st, c, "__getitem__", I)
            starts = {x.a[2].key: x.a[2] for x in tm.find_ops(g, "mmfind") if len(x.a) > 2} if g is not None else {}
            if have:
                ck.same("%s: the saved line index is used" % tag, r, length(MMI), where, "number of lines")
            else:
                want = tm.nlines(p)
                ck.same("%s: the lines of the file are counted" % tag, r, want, where, "number of lines")
                if len(starts) == 1:
                    s = list(starts.values())[0]
                    J = S("j", NAT)
                    sj = tm.replace(s, {I: J})
                    # position of a generic line
                    ok = sj.key == tm.lpos(p, J).key
                    if not ok and s.op == "index":
                        ok = is_line_index(s.a[0], p)
                    ck.require("%s: line i starts where it starts in the file" % tag, ok, where, "line i starts at %s" % show(s)[:300], closed=not opaque_ops(s))
            ws = [x for x in e.effects if x.kind == "write" and x.d["file"].op == "file" and live(x)]
            op = [x for x in e.effects if x.kind == "open" and live(x) and x.d["mode"].op == "const" and set("wax+") & set(str(x.d["mode"].a[0]))]
            for x in op:
                ck.require("%s: only the line index is written" % tag, x.d["path"].key == mm_path(p).key, x.where, "%s is written, the line index is %s" % (
                    show(x.d["path"]), show(mm_path(p))), closed=not opaque_ops(x.d["path"]))
            if have:
                ck.require("%s: an existing line index is kept" % tag, not op, op[0].where if op else where, "the existing line index is overwritten")
            elif save:
                ck.require("%s: the line index is saved" % tag, bool([x for x in op if pc_of(x) is TRUE]), where, "no line index is saved")
                for x in ws:
                    t = x.d["content"]
                    if t.op != "jdumps":
                        ck.add("%s: the line index saved lists the starts of the lines" % tag, UNDEC, show(t)[:200], x.where)
                        continue
                    ck.require("%s: the line index saved lists the starts of the lines" % tag, is_line_index(t.a[0], p), x.where, "the line index saved is %s" % show(t)[:300])
            else:
                ck.require("%s: nothing is written" % tag, not op, op[0].where if op else where, "a file is written although save_index is False")


# ---------------------------------------------------------------------------- C30
def opened(e, effs):
    fs = [x for x in effs if x.kind == "open" and live(x)]
    ms = [x for x in effs if x.kind == "mmap" and live(x)]
    return fs, ms


def closed_of(effs):
    """keys of the files and mappings closed unconditionally, with the effect"""
    out = {}
    for x in effs:
        if not live(x):
            continue
        if x.kind == "close" and isinstance(x.d.get("value", x.d.get("ref")), tm.T):
            out.setdefault(x.d.get("value", x.d.get("ref")).key, x)
        if x.kind == "mmapop" and x.d["name"] == "close":
            out.setdefault(x.d["ref"].key, x)
        if x.kind == "ctx_exit" and isinstance(x.d["ref"], tm.T):
            out.setdefault(x.d["ref"].key, x)
    return out


def known_cut(t):
    """text methods with known arguments that are no way to remove a file extension"""
    m = {}
    for x in tm.find_ops(t, "index", "strm"):
        s = x.a[0] if x.op == "index" else x
        if s.op == "strm" and (x.op == "index" and s.a[0] in ("split", "partition") and x.a[1].key == ZERO.key or x.op == "strm" and s.a[0] in ("replace", "strip", "rstrip")):
            if not any(y.op in ("strm", "index") for y in s.a[1:] if hasattr(y, "op")):
                m[x] = mk("cutpath", s.a[1], ty=STR)
    return tm.replace(t, m) if m else t


def c30(ck):
    p = E.path(PATH)

    def paths():
        where = "save_mmindex"
        for enc in (False,):
            e = base.engine()
            L = S("indexes", ListOf(NAT))
            call(e, "bm25s.utils.corpus", "save_mmindex", [L, PATH])
            ck.use(e)
            op = [x for x in e.effects if x.kind == "open" and live(x)]
            ck.require("the line index is written to the path with the extension replaced", len(op) == 1 and op[0].d["path"].key == std_mm_path(p).key if op else None,
                       op[0].where if op else where, "written: %s, required: %s" % ([show(x.d["path"]) for x in op], show(std_mm_path(p))),
                       closed=not any(opaque_ops(known_cut(x.d["path"])) for x in op))
            ws = [x for x in e.effects if x.kind == "write" and live(x)]
            if len(ws) == 1 and op:
                t = ws[0].d["content"]
                ck.require("the line index written is the one given", t.op == "jdumps" and t.a[0].key == L.key, ws[0].where, "written: %s" % show(t)[:200], closed=not opaque_ops(t))
            else:
                ck.add("the line index written is the one given", UNDEC, "%d writes" % len(ws), where)
            cl = closed_of(e.effects)
            if op:
                ck.require("the line index file is closed after writing", op[0].d["file"].key in cl, where, "the line index may stay unwritten")
            e = base.engine()
            e.fs = {std_mm_path(p).key: mk("jdumps", L, (), ty=STR)}
            r, _ = call(e, "bm25s.utils.corpus", "load_mmindex", [PATH])
            ck.use(e)
            op = [x for x in e.effects if x.kind == "open" and live(x)]
            ck.require("the line index is read from the path with the extension replaced", len(op) == 1 and op[0].d["path"].key == std_mm_path(p).key if op else None,
                       op[0].where if op else "load_mmindex", "read: %s, required: %s" % ([show(x.d["path"]) for x in op], show(std_mm_path(p))),
                       closed=not any(opaque_ops(known_cut(x.d["path"])) for x in op))
            ck.same("the line index read is the one saved", r, L, "load_mmindex", "the line index read differs")
    ck.guard("c30 paths", paths)

    def closing():
        where = "JsonlCorpus.close"
        e, st, c = built(ck)
        fs, ms = opened(e, e.effects)
        fs = [x for x in fs if x.d["path"].key == p.key]
        if c is None or not fs or not ms:
            ck.add("closing", UNDEC, "no file or mapping opened by the constructor", where)
            return
        f, m = fs[-1].d["file"], ms[-1].d["ref"]
        ck.require("the mapping is of the corpus file", any(x.key == f.key for x in tm.find_ops(m, "file")), ms[-1].where, "mapped: %s" % show(m)[:200], closed=not opaque_ops(m))
        args = ms[-1].d["args"]
        if len(args) > 1:
            ck.require("the whole file is mapped", tm.is_zero(args[1]) and tm.is_zero(ms[-1].d["kwargs"].get("offset", ZERO)), ms[-1].where, "mapped length %s" % show(args[1]), closed=not opaque_ops(args[1]))
        k = len(e.effects)
        r1, ef1 = run(e, st, c, "close")
        cl = closed_of(ef1)
        for what, o in (("file", f), ("mapping", m)):
            x = cl.get(o.key)
            ck.require("closing closes the %s" % what, x is not None and pc_of(x) is TRUE, where, "the %s %s" % (what, "is not closed" if x is None else "is closed only when %s" % show(pc_of(x))[:200]),
                       closed=x is None and not unknown_close(ef1) or x is not None and not opaque_ops(pc_of(x)))
        r2, ef2 = run(e, st, c, "close")
        bad = [x for x in ef2 if live(x) and (x.kind == "raise" or x.kind == "close" and kind(x.d.get("value", x.d.get("ref"))) == "none")]
        ck.require("closing again is safe", not bad and r2 is not None, where, "closing a closed corpus: %s" % ([(x.kind, x.where) for x in bad] or "does not return"))
        # reload
        r3, ef3 = run(e, st, c, "load")
        reopened(ck, e, ef3, p, "after closing")
        I = S("i", INT)
        g, _ = run(e, st, c, "__getitem__", I)
        e3, st3, c3 = built(ck)
        w, _ = run(e3, st3, c3, "__getitem__", I)
        ck.same("after closing and reloading, lines are read as before", g, w, "JsonlCorpus.load", "the record read after reloading")
        fs3, ms3 = opened(e, ef3)
        r4, ef4 = run(e, st, c, "close")
        cl = closed_of(ef4)
        for what, o in (("file", fs3[-1].d["file"] if fs3 else None), ("mapping", ms3[-1].d["ref"] if ms3 else None)):
            if o is not None:
                x = cl.get(o.key)
                ck.require("closing after reloading closes the %s" % what, x is not None and pc_of(x) is TRUE, where, "the %s that reloading opened is not closed" % what,
                           closed=not unknown_close(ef4))
    ck.guard("c30 closing", closing)

    def reload_open():
        e, st, c = built(ck)
        fs, ms = opened(e, e.effects)
        fs = [x for x in fs if x.d["path"].key == p.key]
        if not fs or not ms:
            return
        f, m = fs[-1].d["file"], ms[-1].d["ref"]
        r, ef = run(e, st, c, "load")
        cl = closed_of(ef)
        o2, m2 = opened(e, ef)
        for what, o, new in (("file", f, o2), ("mapping", m, m2)):
            x = cl.get(o.key)
            ok = x is not None and all(x.seq < y.seq for y in new)
            ck.require("reloading first closes the open %s" % what, ok, "JsonlCorpus.load", "the %s that was open is %s" % (what, "not closed" if x is None else "closed after the new one is opened"),
                       closed=not unknown_close(ef))
        reopened(ck, e, ef, p, "while open")
    ck.guard("c30 reload", reload_open)

    def partial():
        """close is also what the finaliser calls on an object whose construction failed before anything was opened"""
        e, st, c = built(ck)
        if c is None:
            return
        gone = []
        for key in list(st.heap):
            if isinstance(key, tuple) and len(key) == 3 and key[0] == "f" and key[1] == c.id and isinstance(st.heap[key], tm.T):
                if tm.find_ops(e.resolve(st.heap[key], st), "file", "mmapobj"):
                    gone.append(key[2])
                    del st.heap[key]
        ck.count("attributes_missing", len(gone))
        r, ef = run(e, st, c, "close")
        bad = [x for x in ef if live(x) and x.kind in ("raise", "noattr")]
        ck.require("closing an object whose construction failed is safe", not bad and r is not None, bad[0].where if bad else "JsonlCorpus.close",
                   "attributes %s are read although they may not exist" % gone, closed=bool(gone))
    ck.guard("c30 partial", partial)


def unknown_close(effs):
    return any(x.kind in ("call", "method") and live(x) for x in effs)


def reopened(ck, e, effs, p, when):
    fs, ms = opened(e, effs)
    where = "JsonlCorpus.load"
    ok = [x for x in fs if x.d["path"].key == p.key and pc_of(x) is TRUE]
    ck.require("reloading %s opens the same file" % when, bool(ok) and len(ok) == len(fs), where, "opened: %s" % [show(x.d["path"]) for x in fs], closed=not any(opaque_ops(x.d["path"]) for x in fs))
    if ok:
        f = ok[-1].d["file"]
        okm = [x for x in ms if any(y.key == f.key for y in tm.find_ops(x.d["ref"], "file")) and pc_of(x) is TRUE]
        ck.require("reloading %s maps the file it opened" % when, bool(okm), where, "mapped: %s" % [show(x.d["ref"])[:200] for x in ms])
        cl = closed_of(effs)
        ck.require("reloading %s leaves the file and the mapping open" % when, not any(o.key in cl and cl[o.key].seq > x.seq for x, o in [(ok[-1], f)] + [(x, x.d["ref"]) for x in okm[-1:]]), where,
                   "what is opened is closed again")
