"""C16 (round trip), C18 (saved corpus), C19 (encodings), C20 (tokenizer files), C21 (pickle), C22 (memory maps)."""
import ast
from .base import *  # noqa
from . import base
from .. import models
from .query import readonly, SELF, rejected

DIR = S("save_dir", STR)
NAMES = ("data_name", "indices_name", "indptr_name", "vocab_name", "params_name", "nnoc_name", "corpus_name")
PARAMS = ("k1", "b", "delta", "method", "idf_method", "dtype", "int_dtype", "backend")
FIND = "bm25s.utils.corpus.find_newline_positions"
SAVEMM = "bm25s.utils.corpus.save_mmindex"
JINIT = JSONL + ".__init__"


class Files:
    """what a run leaves in the file system"""

    def __init__(self):
        self.content = {}       # path.key -> (path, content or None when not modelled)
        self.notes = []


def files_written(e):
    f = Files()
    parts = {}
    for x in e.effects:
        p = pc_of(x)
        if p is FALSE:
            continue
        if x.kind == "np.save":
            path, val = x.d["path"], x.d["value"]
        elif x.kind == "open" and isinstance(x.d["mode"], tm.T) and x.d["mode"].op == "const" and "w" in str(x.d["mode"].a[0]):
            parts[x.d["path"].key] = []
            f.content[x.d["path"].key] = (x.d["path"], None)
            continue
        elif x.kind == "write" and x.d["file"].op == "file":
            path = x.d["file"].a[0]
            if x.loops or p is not TRUE:
                parts.setdefault(path.key, []).append(None)
            else:
                parts.setdefault(path.key, []).append(x.d["content"])
            ps = parts[path.key]
            val = None if None in ps else (ps[0] if len(ps) == 1 else E.cat(ps)) if ps else None
        elif x.kind in ("replace", "copyfile"):
            src = f.content.get(x.d["src"].key)
            if src:
                f.content[x.d["dst"].key] = (x.d["dst"], src[1])
                if x.kind == "replace":
                    f.content.pop(x.d["src"].key, None)
            continue
        elif x.kind == "remove":
            f.content.pop(x.d["path"].key, None)
            continue
        else:
            continue
        if x.kind == "np.save" and (x.loops or p is not TRUE):
            val = None
        f.content[path.key] = (path, val)
    return f


def typed(e, method, nonocc, corpus=NONEV, backend=None):
    s = bm_types(e, [("nonoccurrence_array", Arr(FLOAT)), ("unique_token_ids_set", Ty("set", INT)), ("vocab_dict", Ty("dict", NAT)), ("_original_version", STR)],
                 method=method)
    e.attr_vals[(BM, "corpus")] = corpus
    if not nonocc:
        e.attr_vals[(BM, "nonoccurrence_array")] = NONEV
    return s


def c16(ck):
    models.LOSSY[0] = True
    where = "BM25.load"
    runs = []
    for m in ("robertson", "lucene", "atire", "bm25l", "bm25+"):
        runs.append((m, False, {}, False, {}))
        if m in ("lucene", "bm25l", "bm25+"):
            runs.append((m, True, {}, False, {}))
    for m in ("lucene", "bm25l"):
        runs.append((m, False, {n: S("the_" + n, STR) for n in NAMES}, True, {}))
        runs.append((m, False, {}, True, {"orjson": True}))
        runs.append((m, True, {}, False, {"orjson": True}))
    for m, mm, names, ap, avail in runs:
        def one():
            tag = "method=%s, mmap=%s%s%s" % (m, mm, ", given file names" if names else "", ", orjson" if avail else "")
            e = base.engine(avail=avail)
            nn = m in ("bm25l", "bm25+")
            typed(e, m, nn)
            st = State({}, dict(e.base_heap))
            kw = dict(names)
            if ap:
                kw["allow_pickle"] = TRUE
            call(e, "bm25s", "BM25.save", [SELF, DIR], kw, st)
            ck.use(e)
            ck.count("round_trips")
            fs = files_written(e)
            k = len(e.effects)
            e.fs = {q: v for q, (p, v) in fs.content.items()}
            lost = [p for p, v in fs.content.values() if v is None]
            st2 = State({}, dict(e.base_heap))
            kw["mmap"] = TRUE if mm else FALSE
            r, st2 = call(e, "bm25s", "BM25.load", [DIR], kw, st2)
            ck.use(e)
            reads = [x for x in e.effects[k:] if x.kind in ("open", "np.load") and pc_of(x) is not FALSE]
            for x in reads:
                if x.kind == "open" and x.d["mode"].op == "const" and "r" not in x.d["mode"].a[0]:
                    continue
                ck.require("%s: every file read is one that was written" % tag, x.d["path"].key in e.fs, x.where,
                           "%s is read, but save writes %s" % (show(x.d["path"]), sorted(show(p) for p, v in fs.content.values())),
                           closed=not opaque_ops(x.d["path"]))
            if r is None:
                rs = [y for y in effects(e, "raise") if y.seq >= 0 and pc_of(y) is not FALSE]
                ck.require("%s: a saved index can be loaded" % tag, None if lost else False, where, "load does not return: %s" % [
                    (y.where, y.d.get("exc")) for y in rs[-3:]])
                return
            g = {}
            obj = None
            for v, _ in [(r, 0)]:
                obj = v
            loaded = loaded_obj(e, st2, r)
            if loaded is None:
                ck.add("%s: loaded object" % tag, UNDEC, "load does not return a new object: %s" % show(r)[:200], where)
                return
            for n in PARAMS:
                want = const(m) if n == "method" else attr(SELF, n, STR if n in ("dtype", "int_dtype", "idf_method", "backend") else FLOAT)
                got = loaded(n)
                if got is not None and n == "idf_method":
                    # the idf_method of a constructed index is never None: the constructor replaces it by the name of the method
                    got = tm.restrict(got, {mk("is", want, NONEV).key: False, mk("is", NONEV, want).key: False})
                if got is not None and n == "backend":
                    # likewise, 'auto' is replaced by the backend chosen
                    got = tm.restrict(got, {x.key: False for x in tm.find_ops(got, "eq") if {y.key for y in x.a if isinstance(y, tm.T)} == {want.key, const("auto").key}})
                ck.same("%s: %s is restored" % (tag, n), got, want, where, "%s of the loaded index differs" % n)
            sc = loaded("scores")
            for n, t in (("data", Arr(FLOAT)), ("indices", Arr(INT)), ("indptr", Arr(INT)), ("num_docs", NAT)):
                ck.same("%s: scores[%s] is restored" % (tag, n), index(sc, const(n)) if sc is not None else None, index(attr(SELF, "scores"), const(n)), where,
                        "%s of the loaded index differs" % n)
            voc = attr(SELF, "vocab_dict", Ty("dict", NAT))
            ck.same("%s: the vocabulary is restored" % tag, loaded("vocab_dict"), voc, where, "the vocabulary of the loaded index differs")
            ck.same("%s: the known IDs are those of the vocabulary" % tag, loaded("unique_token_ids_set"), mkset(tm.values_(voc)), where,
                    "the set of known IDs differs from the vocabulary's")
            ck.same("%s: the non-occurrence scores are restored" % tag, loaded("nonoccurrence_array"), attr(SELF, "nonoccurrence_array", Arr(FLOAT)) if nn else NONEV,
                    where, "the non-occurrence scores of the loaded index differ")
        ck.guard("c16 %s" % m, one)


def loaded_obj(e, st, r):
    if r.op == "objval":
        d = {k.a[0]: v for k, v in r.a[1]}
        return lambda n: d.get(n, const("<no attribute %s>" % n))
    if r.op == "loc" or r.ty is not None and r.ty.cls:
        return lambda n: field(e, st, r, n)
    return None


# ---------------------------------------------------------------------------- saved corpus
def exc_leaves(t, exc=False):
    """[(value, under an exception)] of the alternatives of a value"""
    if t.op == "phi" and t.a[0].op == "exc":
        return exc_leaves(t.a[1], True) + exc_leaves(t.a[2], exc)
    if t.op == "phi":
        return [(x, ex, ) for x, ex in exc_leaves(t.a[1], exc) + exc_leaves(t.a[2], exc)]
    return [(t, exc)]


def one_line(t):
    """(payload, None) for json text + newline; (None, text) for constant text; None when not recognised"""
    if t.op == "const" and isinstance(t.a[0], str):
        return None, t.a[0]
    if t.op == "cat" and len(t.a[0]) == 2 and t.a[0][0].op in ("jdumps", "odecode") and tm.is_const(t.a[0][1]):
        return t.a[0][0], t.a[0][1].a[0]
    if t.op in ("jdumps", "odecode"):
        return t, ""
    return None


def unkopt(t):
    return mk("unk", "option", t)


def payload(j):
    return j.a[0].a[0] if j.op == "odecode" else j.a[0]


def kwargs_of(j):
    if j.op == "odecode":
        j = j.a[0]
        opt = show(j.a[2])
        return {"indent": const(2)} if "INDENT" in opt or "APPEND" in opt else {"indent": NONEV} if "orjson.OPT_" in opt or tm.is_const(j.a[2]) else {"indent": unkopt(j.a[2])}
    return {k.a[0]: v for k, v in j.a[1]} if len(j.a) > 1 and isinstance(j.a[1], tuple) else {}


def line_writes(e, path):
    """[(content, loop count, loop variable, condition, effect)] of the writes to a file"""
    out = []
    for x in e.effects:
        if x.kind != "write" or x.d["file"].op != "file" or x.d["file"].a[0].key != path.key or pc_of(x) is FALSE:
            continue
        c, loops = x.d["content"], x.loops
        g = TRUE
        N, v = (loops[-1][1], loops[-1][2]) if loops else (None, None)
        if x.d["how"] == "writelines" and c.op == "comp" and not loops:
            N, (g, c), v = tm.open_binder(c)
        elif x.d["how"] != "write":
            N = v = None
        out.append((c, N, v, tm.land(g, pc_of(x)), x))
    return out


def is_line_index(t, path):
    """True / False / None: is t the list of the starts of the lines of path?"""
    if opaque_ops(t):
        return None
    N = tm.nlines(path)
    drop = 0
    if t.op == "slice" and tm.is_const(t.a[3], None) and tm.is_const(t.a[1], None) and tm.numval(t.a[2]) is not None and tm.numval(t.a[2]) < 0:
        drop = -int(tm.numval(t.a[2]))
        t = t.a[0]
    total = ZERO
    for p in (t.a[0] if t.op == "concat_l" else [t]):
        if p.op == "list":
            for j, x in enumerate(p.a[0]):
                if x.key != tm.lpos(path, add(total, const(j))).key:
                    return False
        else:
            j = tm.fresh("j")
            x = index(p, j)
            if x.op == "index":
                return None
            if x.key != tm.lpos(path, add(total, j)).key:
                return False
        total = add(total, length(p))
    return sub(total, const(drop)).key == N.key


def escapes(e, f):
    """is the file handed to a call that the analysis does not know?"""
    for x in e.effects:
        if x.kind == "call" and any(isinstance(a, tm.T) and tm.contains(a, lambda y: y.key == f.key) for a in list(x.d.get("args", ())) + list(x.d.get("kwargs", {}).values())):
            return True
    return False


def lt_(a, b):
    return tm.lt0(tm.sub(a, b))


def closes(e, f):
    return [x for x in e.effects if x.kind == "ctx_exit" and isinstance(x.d["ref"], tm.T) and x.d["ref"].key == f.key and x.fin and x.fin[1] == "normal"
            or x.kind == "close" and isinstance(x.d.get("value"), tm.T) and x.d["value"].key == f.key]


def c18(ck):
    where = "BM25.save"
    seen = {}
    v0 = None
    for cname, cty in (("strings", STR), ("dictionaries", Ty("dict")), ("lists", ListOf(STR)), ("tuples", Ty("tuple")), ("numbers", INT), ("None", Ty("none"))):
        for src in ("argument", "own", "lazily read"):
            if src != "argument" and cty not in (STR, ) and not (src == "lazily read" and cname == "dictionaries"):
                continue
            if src == "lazily read" and cname == "strings":
                continue

            def one():
                tag = "%s, corpus of %s" % (src, cname)
                for orj in (False, True):
                    e = base.engine(avail={"orjson": orj})
                    C = S("corpus", {"argument": ListOf(cty), "own": ListOf(cty), "lazily read": Obj(JSONL)}[src])
                    typed(e, "lucene", False, corpus=C if src == "own" else S("own_corpus", ListOf(cty)) if cname == "strings" else NONEV)
                    name = S("the_corpus_name", STR)
                    st = State({}, dict(e.base_heap))
                    call(e, "bm25s", "BM25.save", [SELF, DIR], {"corpus_name": name, **({} if src == "own" else {"corpus": C})}, st)
                    ck.use(e)
                    saved(ck, e, tag + (", orjson" if orj else ""), cname, C, name, src)
            ck.guard("c18 %s %s" % (src, cname), one)

    def back():
        for mm in (False, True):
            e = base.engine()
            typed(e, "lucene", False)
            name = S("the_corpus_name", STR)
            st = State({}, dict(e.base_heap))
            r, st = call(e, "bm25s", "BM25.load", [DIR], {"load_corpus": TRUE, "mmap": const(mm), "corpus_name": name}, st)
            ck.use(e)
            l = loaded_obj(e, st, r) if r is not None else None
            got = l("corpus") if l else None
            path = E.pjoin(E.path(DIR), name)
            if got is None:
                ck.add("load_corpus, mmap=%s" % mm, UNDEC, "no loaded object", "BM25.load")
                continue
            ex = [x for x in tm.find_ops(got, "exists") if x.a[0].key == path.key]
            got = tm.restrict(got, {x.key: True for x in ex})
            if mm:
                ok = got.op == "objval" and got.a[0] == JSONL and dict((k.a[0], v) for k, v in got.a[1]).get("path", NONEV).key == path.key
                ck.require("with mmap, the loaded corpus reads the saved file lazily", ok, "BM25.load", "the corpus of the loaded index is %s" % show(got)[:300],
                           closed=not opaque_ops(got))
            else:
                i = tm.fresh("i")
                f = [x for x in tm.find_ops(got, "fline")]
                line = None
                for x in f:
                    if x.a[0].a[0].key == path.key:
                        line = mk("fline", x.a[0], i, fv=i.fv, ty=STR)
                want = mk("jloads", line) if line is not None else None
                ck.same("without mmap, the loaded corpus has one document per line", length(got), tm.nlines(path), "BM25.load", "number of loaded documents", allow=("strm",))
                ge = index(got, i)
                ok = ge.op == "jloads" and line is not None and ge.a[0].key == line.key
                ck.require("without mmap, document i is the record of line i", ok, "BM25.load", "document i of the loaded index is %s" % show(ge)[:300],
                           closed=not opaque_ops(ge, allow=("strm",)))
    ck.guard("c18 load", back)


def saved(ck, e, tag, cname, C, name, src):
    where = "BM25.save"
    path = E.pjoin(E.path(DIR), name)
    opens = [x for x in e.effects if x.kind == "open" and x.d["path"].key == path.key and pc_of(x) is not FALSE]
    wopen = [x for x in opens if x.d["mode"].op == "const" and set("wax+") & set(str(x.d["mode"].a[0]))]
    ck.count("saves")
    if len(wopen) != 1:
        ck.require("%s: the corpus file is written once" % tag, None if wopen or any(x.kind in ("replace", "copyfile") for x in e.effects) else False, where,
                   "%d openings of %s for writing" % (len(wopen), show(path)))
        return
    wo = wopen[0]
    ck.require("%s: the corpus file is started afresh" % tag, "w" in wo.d["mode"].a[0] and "a" not in wo.d["mode"].a[0].replace("wat", ""), wo.where,
               "the corpus file is opened with mode %r, so that what an earlier save left stays in it" % wo.d["mode"].a[0])
    conds = tm.restrict(pc_of(wo), {})
    ck.require("%s: the corpus file is written whenever there is a corpus" % tag, conds is TRUE, wo.where, "only when %s" % show(conds)[:300], closed=not opaque_ops(conds))
    ws = line_writes(e, path)
    if escapes(e, wo.d["file"]):
        ck.add("%s: one line per document" % tag, UNDEC, "the file is used by calls that are not modelled", wo.where)
        return
    if not ws:
        ck.require("%s: one line per document" % tag, False, wo.where, "nothing is written to the corpus file")
        return
    N0 = length(C) if src != "lazily read" else None
    groups = {}
    for c, N, v, g, x in ws:
        if v is None:
            ck.add("%s: one line per document" % tag, UNDEC, "write outside a loop over the documents: %s" % show(c)[:200], x.where)
            return
        groups.setdefault(v.key, []).append((c, N, v, g, x))
    if len(groups) > 1:
        ck.add("%s: one line per document" % tag, UNDEC, "several loops write to the corpus file", where)
        return
    g = list(groups.values())[0]
    N, v = g[0][1], g[0][2]
    if len(g[0][4].loops) > 1:
        ck.add("%s: one line per document" % tag, UNDEC, "nested loops write to the corpus file", where)
        return
    if N0 is not None:
        ck.same("%s: every document is written" % tag, N, N0, g[0][4].where, "number of iterations of the writing loop")
    # pieces written in one iteration, in order
    parts = []
    for c, _, _, cond, x in g:
        for t in x.tries:
            # the write is lost when an exception is caught before it
            if t.swallows and t.atom is not None and len(x.loops) == 1 and t.frame is not None:
                c = tm.ite(t.atom, const(""), c)
        if cond is TRUE:
            parts.append(c)
            continue
        if opaque_ops(cond):
            ck.add("%s: one line per document" % tag, UNDEC, "conditional write: %s" % show(cond)[:200], x.where)
            return
        parts.append(tm.ite(cond, c, const("")))
    text = E.cat(parts)
    if text.op == "cat" and any(p.op == "phi" for p in text.a[0]):
        text = spread(list(text.a[0]))
    doc = index(C, v) if src != "lazily read" else None
    leaves = list(exc_leaves(text))
    for leaf, ex in leaves:
        r = one_line(leaf)
        if r is None or opaque_ops(leaf, allow=("meth", "call", "strm") if src == "lazily read" else ("strm",)):
            ck.add("%s: a document gives one line" % tag, UNDEC, "line not recognised: %s" % show(leaf)[:300], g[0][4].where)
            continue
        j, tail = r
        if j is None:
            good = tail.endswith("\n") and tail.count("\n") == 1 and len(tail) > 1
            # the type of a document that is read back is not known
            other = src == "lazily read" and tail == "null\n" and any((one_line(l) or (None,))[0] is not None for l, _ in leaves)
            ck.require("%s: a document gives one line%s" % (tag, " (not serialisable)" if ex else ""), good and (ex or other or cname in ("numbers", "None")), g[0][4].where,
                       "the text written for a document is %r" % tail)
            continue
        kw = kwargs_of(j)
        ind = kw.get("indent", NONEV)
        ck.require("%s: the record is on one line" % tag, tail == "\n" and ind.key == NONEV.key, g[0][4].where, closed=not opaque_ops(ind), why=
                   "the record is followed by %r and written with indent %s" % (tail, show(ind)))
        if src == "lazily read" or ex or cname in ("numbers", "None"):
            continue
        want = mk("dict", ((const("id"), v), (const("text"), doc)), ty=Ty("dict")) if cname == "strings" else doc
        ck.same("%s: the record is the document" % tag, payload(j), want, g[0][4].where, "the record written for document i differs", allow=("strm",))
    # order: close, then index
    wf = wo.d["file"]
    cl = closes(e, wf)
    rd = [x for x in opens if x is not wo and x.seq > wo.seq]
    if not rd:
        ck.require("%s: the line index is computed from the file" % tag, None, where, "the written corpus file is not read again")
    for x in rd:
        ok = any(c.seq < x.seq for c in cl) and all(w[4].seq < x.seq for w in ws)
        ck.require("%s: the corpus file is complete and closed before its lines are indexed" % tag, ok, x.where,
                   "the file is read for its line index while it may hold unwritten text")
    mm = [x for x in e.effects if x.kind == "write" and x.d["file"].op == "file" and x.d["file"].a[0].key != path.key and tm.find_ops(x.d["content"], "lpos", "nlines")]
    mmw = [x for x in e.effects if x.kind == "open" and x.d["path"].key == mm_path(path).key and x.d["mode"].op == "const" and "w" in x.d["mode"].a[0]]
    ck.require("%s: a line index is written beside the corpus file" % tag, bool(mmw) and all(pc_of(x) is TRUE for x in mmw), where,
               "no line index %s is written; an older one would be used for the new file" % show(mm_path(path)))
    for x in mmw:
        ws2 = [w for w in e.effects if w.kind == "write" and w.d["file"].key == x.d["file"].key]
        if len(ws2) != 1 or ws2[0].d["content"].op != "jdumps":
            ck.add("%s: the line index lists the starts of the lines" % tag, UNDEC, "line index not recognised", x.where)
            continue
        t = ws2[0].d["content"].a[0]
        ok = is_line_index(t, path)
        ck.require("%s: the line index lists the starts of the lines" % tag, ok, ws2[0].where, "the line index is %s" % show(t)[:400])


_mm = {}


def mm_path(path):
    """the path the code gives the line index of a file (C30 states what it has to be)"""
    if path.key not in _mm:
        r = None
        try:
            e = base.engine()
            base.call(e, "bm25s.utils.corpus", "save_mmindex", [S("indexes", ListOf(NAT)), E.strof(path)])
            op = [x for x in e.effects if x.kind == "open" and pc_of(x) is not FALSE]
            if len(op) == 1:
                r = op[0].d["path"]
        except Exception:
            pass
        _mm[path.key] = r if r is not None else std_mm_path(path)
    return _mm[path.key]


def std_mm_path(path):
    return E.path(E.cat([mk("splitext0", E.strof(path), ty=STR), const(".mmindex.json")]))


def spread(parts):
    for n, p in enumerate(parts):
        if p.op == "phi":
            a = spread(parts[:n] + [p.a[1]] + parts[n + 1:])
            b = spread(parts[:n] + [p.a[2]] + parts[n + 1:])
            return tm.ite(p.a[0], a, b)
    return E.cat(parts)
