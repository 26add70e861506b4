"""C31 (dataset loaders), C32 (evaluation), C35 (results for evaluation), C36 (interrupted downloads), C38 (timers)."""
import os
from .base import *  # noqa
from . import base
from ..terms import eq, sumc, fresh as fresh_var
import itertools

MOD = "bm25s.utils.beir"
BENCH = "bm25s.utils.benchmark"
SAVE = S("save_dir", STR)
DATA = S("dataset", STR)
EXC = ("exc",)


def module(e):
    m = e.get_module(MOD)
    if "__dead__" in m.env:
        raise Anchor(MOD + " cannot be analysed")
    return m


def noexc(t, v=False):
    return tm.restrict(t, {y.key: v for y in tm.find_ops(t, "exc")})


def exists_as(t, v):
    return tm.restrict(t, {y.key: v for y in tm.find_ops(t, "exists")})


def in_loops(x):
    """the conditions of an effect that depend on the iteration"""
    vs = {l[2].a[0] for l in x.loops if len(l) > 2 and isinstance(l[2], tm.T)}
    ls = {l[0] for l in x.loops}
    r = TRUE
    for c in x.pc:
        if set(c.fv) & vs or any(m.a[0] in ls for m in tm.find_ops(c, "mu")):
            r = tm.land(r, c)
    return r


def blank_free(c, line):
    """c under the assumption that the line read is not blank"""
    known = {}
    for x in tm.subterms(c):
        if x.op in ("truth", "lt0", "eq", "strm", "not") and line is not None and line.key in {y.key for y in tm.subterms(x)}:
            if x.op == "truth" and strip_ws(x.a[0]).key == line.key:
                known[x.key] = True
            if x.op == "lt0":       # len(line.strip()) - 1 < 0
                ls = [y for y in tm.find_ops(x, "len")]
                if len(ls) == 1 and strip_ws(ls[0].a[0]).key == line.key and x.a[0].key == sub(ls[0], ONE).key:
                    known[x.key] = False
            if x.op == "eq" and any(strip_ws(y).key == line.key for y in x.a[:2]) and any(y.op == "const" and y.a[0] in ("", "\n") for y in x.a[:2]):
                known[x.key] = False
    return tm.restrict(c, known)


def strip_ws(t):
    while t.op == "strm" and t.a[0] in ("strip", "rstrip", "lstrip"):
        t = t.a[1]
    return t


def first_line(t):
    for x in tm.find_ops(t, "fline"):
        return x
    return None


# ---------------------------------------------------------------------------- C31
def c31(ck):
    for fn, fname in (("load_corpus", "corpus.jsonl"), ("load_queries", "queries.jsonl")):
        for rd in (TRUE, FALSE, None):
            ck.guard("%s(return_dict=%s)" % (fn, "default" if rd is None else show(rd)), lambda: records(ck, fn, fname, rd))
    for split in (None, "train", "dev", "test"):
        for rd in (TRUE, FALSE):
            ck.guard("load_qrels(%s, return_dict=%s)" % (split, show(rd)), lambda: qrels(ck, split, rd))
    ck.guard("merge_cqa_dupstack", lambda: merging(ck))


def same_path(p, *parts):
    """is the path p the join of the parts?"""
    e = base.engine()
    q = E.path(parts[0])
    for x in parts[1:]:
        q = mk("pjoin", q, x)
    return p.key == q.key or flat_path(p) == flat_path(q)


def flat_path(p):
    """components of a path"""
    if p.op == "path":
        return flat_path(p.a[0])
    if p.op == "pjoin":
        out = []
        for x in p.a:
            out += flat_path(x)
        return out
    if p.op == "const" and isinstance(p.a[0], str):
        return [c for c in p.a[0].split("/") if c not in ("", ".")] if p.a[0] != "./datasets" else ["./datasets"]
    if p.op in ("strof", "fspath"):
        return flat_path(p.a[0])
    if p.op == "attr" and p.a[1] == "parent":
        q = flat_path(p.a[0])
        if len(q) > 1 and isinstance(q[-1], str) and q[-1] != "..":
            return q[:-1]
    if p.op == "cat" and len(p.a[0]) == 2 and p.a[0][0].op == "splitext0" and p.a[0][1].op == "const":
        q = flat_path(p.a[0][0].a[0])
        if len(q) > 1 and isinstance(q[-1], str) and isinstance(p.a[0][1].a[0], str) and q[-1] != "..":
            return q[:-1] + [os.path.splitext(q[-1])[0] + p.a[0][1].a[0]]
    return [p.key]


def lines_of(N, line, v, skip=0):
    """is `line` the line number v (+skip) of a file all whose lines are counted by N? -> file or None"""
    if line is None or line.op != "fline":
        return None
    f = line.a[0]
    if line.a[1].key != tm.add(v, const(skip)).key:
        return None
    if N.key != tm.sub(tm.nlines(f), const(skip)).key:
        return None
    return f


def record_of(t):
    """JSON text that t was parsed from, without what was stored in or removed from the record"""
    while t.op in ("setitem", "copyof", "fresh", "delitem"):
        t = t.a[0]
    return t


def id_of(t, key="_id"):
    """record whose ID t is"""
    if t.op == "meth" and t.a[1] in ("pop", "get", "__getitem__") and len(t.a) > 2 and tm.is_const(t.a[2], key):
        return record_of(t.a[0])
    if t.op == "index" and tm.is_const(t.a[1], key):
        return record_of(t.a[0])
    if t.op == "dget" and tm.is_const(t.a[1], key):
        return record_of(t.a[0])
    return None


def records(ck, fn, fname, rd):
    e = base.engine()
    module(e)
    kw = {"save_dir": SAVE}
    if rd is not None:
        kw["return_dict"] = rd
    r, st = call(e, MOD, fn, [DATA], kw)
    ck.use(e)
    tag = "%s(return_dict=%s)" % (fn, "default" if rd is None else show(rd))
    if r is None:
        ck.add("%s: returns" % tag, UNDEC, "no normal return", fn)
        return
    as_dict = rd is not FALSE
    t = r
    if as_dict:
        if r.op != "mkdict":
            ck.require("%s: one entry per line" % tag, None if opaque_ops(r) or r.op != "comp" else False, fn, "the result is %s" % show(r)[:300])
            return
        t = r.a[0]
    if t.op != "comp":
        ck.require("%s: one entry per line" % tag, None if opaque_ops(t) or t.op not in ("dict", "list") else False, fn, "the result is %s" % show(r)[:300])
        return
    N, (guard, body), v = tm.open_binder(t)
    if as_dict:
        key, val = body.a[0] if body.op == "tuple" else (index(body, ZERO), index(body, ONE))
    else:
        key, val = None, body
    rec = record_of(val)
    line = first_line(rec)
    f = lines_of(N, line, v)
    ck.require("%s: every line of the file is read" % tag, True if f is not None else (None if opaque_ops(N) or line is None else False), fn,
               "the entries are made for %s out of %s lines" % (show(line)[:200] if line is not None else show(val)[:200], show(N)[:100]))
    ok = blank_free(guard, line) is TRUE
    ck.require("%s: no record is skipped" % tag, ok, fn, "only records with %s are kept" % show(guard)[:300], closed=not field_ops(guard))
    isrec = rec.op == "jloads" and strip_ws(rec.a[0]).op == "fline"
    ck.require("%s: each value is the record of its line" % tag, isrec, fn, "the value kept is %s" % show(val)[:300], closed=not opaque_ops(val))
    if f is not None:
        p = f.a[0]
        ck.require("%s: the records come from %s of the dataset" % (tag, fname), same_path(p, SAVE, DATA, const(fname)), fn, "%s is read" % show(p)[:200], closed=not opaque_ops(p))
    if as_dict:
        k = id_of(key)
        ck.require("%s: records are keyed by their own ID" % tag, k is not None and k.key == rec.key, fn, "the key is %s" % show(key)[:300],
                   closed=k is not None or not opaque_ops(key, allow=("meth", "jloads")) and key.op != "phi")
    kept(ck, e, tag)
    # what happens to a record besides
    for x in effects(e, "mutate", "method", "maybe_mutate"):
        ref = x.d.get("ref")
        if not isinstance(ref, tm.T) or record_of(ref).op != "jloads":
            continue
        ck.count("record_changes")
        how = x.d.get("name") if x.kind == "method" else x.d.get("how")
        args = x.d.get("args") or []
        k = args[0] if args else x.d.get("index")
        if how in ("get", "keys", "items", "values", "copy", "__contains__", "__len__", "__getitem__"):
            continue
        where = x.where
        if how in ("pop", "del", "delitem", "__delitem__"):
            known = k is not None and k.op == "const"
            ck.require("%s: only metadata is removed from a record" % tag, known and (k.a[0] == "metadata" or k.a[0] == "_id" and as_dict), where,
                       "%s is removed" % (show(k) if k is not None else how), closed=known)
            if known and k.a[0] != "_id":
                pres = any(y.op == "in" and y.a[0].key == k.key for y in tm.subterms(pc_of(x)))
                caught = bool(set(sum(x.handlers, ())) & {"KeyError", "LookupError", "Exception", "BaseException", "*"})
                ck.require("%s: records without metadata are loaded" % tag, how == "pop" and len(args) > 1 or pres or caught, where, "a record without the field ends the loading with a KeyError")
        elif how in ("setitem", "set", "setdefault", "__setitem__"):
            known = k is not None and k.op == "const"
            ck.require("%s: no field of a record but a missing title is changed" % tag, known and k.a[0] == "title" and fn == "load_corpus", where, "%s is stored" % (show(k) if k is not None else how), closed=known)
            if known and k.a[0] == "title" and how != "setdefault":
                w = x.d["value"]
                g = [y for y in tm.subterms(w) if id_of(y, "title") is not None]
                g = g and all(id_of(y, "title") is not None or y.op == "const" for y in leaves(w))
                ck.require("%s: a title is kept" % tag, bool(g), where, "the title becomes %s" % show(w)[:200], closed=not field_ops(w))
        else:
            ck.add("%s: change of a record understood" % tag, UNDEC if how not in ("clear", "popitem") else BAD, "%s is applied to the record" % how, where)


def leaves(t):
    """the values of which t is one"""
    return leaves(t.a[1]) + leaves(t.a[2]) if t.op == "phi" else [t]


def field_ops(t):
    """what is not modelled in a value, the fields of a record aside"""
    return opaque_ops(tm.replace(t, {x: S("field", STR) for x in tm.find_ops(t, "meth") if x.a[1] == "get" and x.a[0].op == "jloads"}))


def kept(ck, e, tag):
    """the conditions under which records are put into the result, and loops over lines left before their end"""
    for x in effects(e, "mutate"):
        if x.mod != MOD or not x.loops or x.d["how"] not in ("append", "setitem", "set", "extend", "insert", "add"):
            continue
        w = x.d.get("content")
        w = w if isinstance(w, tm.T) else x.d.get("value")
        if not isinstance(w, tm.T) or record_of(w).op != "jloads":
            continue
        ref = x.d.get("ref")
        if isinstance(ref, tm.T) and record_of(ref).op == "jloads":
            continue
        c = noexc(blank_free(in_loops(x), first_line(record_of(w))))
        ck.require("%s: every record is kept" % tag, c is TRUE, x.where, "kept only with %s" % show(c)[:200], closed=not opaque_ops(c, allow=("meth", "strm", "jloads", "mu")))
    ended(ck, e, tag, lambda x: MOD == x.mod)


def ended(ck, e, tag, pred):
    """a loop over the lines of a file must not be left before its end"""
    for x in effects(e, "break"):
        if not pred(x) or not x.loops:
            continue
        c = in_loops(x)
        line = first_line(c)
        ends = [y for y in tm.find_ops(c, "truth", "eq", "not") if line is not None and (y.op == "truth" and y.a[0].key == line.key or y.op == "eq" and any(tm.is_const(z, "") for z in y.a[:2]))]
        if ends and line is not None:
            continue        # the end of the file, read line by line
        ck.require("%s: the file is read to its end" % tag, noexc(c) is FALSE, x.where, "reading ends when %s" % show(c)[:200], closed=not opaque_ops(c, allow=("meth", "strm", "jloads", "mu")))


# -- relevance judgements
def cell(t, i):
    """line whose i-th tab-separated field t is"""
    if t.op == "index" and tm.is_const(t.a[1], i):
        s = t.a[0]
        if s.op == "strm" and s.a[0] == "split" and len(s.a) > 2:
            x = strip_ws(s.a[1])
            if x.op == "fline":
                return x
    return None


def ws_cell(t, i):
    """line that t, an i-th field, is cut from at white space"""
    if t.op == "index" and tm.is_const(t.a[1], i):
        s = t.a[0]
        if s.op == "strm" and s.a[0] == "split" and (len(s.a) < 3 or not isinstance(s.a[2], tm.T) or s.a[2] is NONEV):
            x = strip_ws(s.a[1])
            if x.op == "fline":
                return x
    return None


def tabbed(t):
    """are the fields of t separated by tabs only?"""
    s = t.a[0]
    return len(s.a) > 2 and isinstance(s.a[2], tm.T) and tm.is_const(s.a[2], "\t")


def fields(ck, tag, where, q, c, s):
    lines = [cell(q, 0), cell(c, 1), cell(s.a[0], 2) if s.op == "toint" else None]
    if all(l is None for l in lines) and ws_cell(q, 0) is not None and ws_cell(c, 1) is not None:
        ck.add("%s: fields are separated by tabs" % tag, BAD, "fields are split at white space", where)
        return None
    ok = all(l is not None for l in lines) and len({l.key for l in lines}) == 1
    closed = not any(opaque_ops(t, allow=("strm",)) for t in (q, c, s))
    ck.require("%s: query, document and integer grade come from one line" % tag, ok, where, "(%s, %s, %s) is kept" % tuple(show(t)[-150:] for t in (q, c, s)), closed=closed)
    if ok:
        ck.require("%s: fields are separated by tabs" % tag, tabbed(q) and tabbed(c) and tabbed(s.a[0]), where, "fields are split at %s" % show(q.a[0])[-60:])
    return lines[0] if ok else None


def shape_free(c, line):
    """conditions on the number of fields of a line are taken to hold"""
    c = blank_free(c, line)
    known = {}
    for x in tm.subterms(c):
        if x.op == "eq" and any(y.op == "len" and y.a[0].op == "strm" and y.a[0].a[0] == "split" for y in x.a[:2]) and any(tm.is_const(y, 3) for y in x.a[:2]):
            known[x.key] = True
    return tm.restrict(c, known)


def qrels(ck, split, rd):
    e = base.engine()
    module(e)
    kw = {"save_dir": SAVE, "return_dict": rd}
    if split:
        kw["split"] = const(split)
    r, st = call(e, MOD, "load_qrels", [DATA], kw)
    ck.use(e)
    tag = "load_qrels(%s, return_dict=%s)" % (split or "default", show(rd))
    fn = "load_qrels"
    if r is None:
        ck.add("%s: returns" % tag, UNDEC, "no normal return", fn)
        return
    files = {x.d["path"].key: x.d["path"] for x in effects(e, "open")}
    want = (SAVE, DATA, const("qrels"), const((split or "test") + ".tsv"))
    for p in files.values():
        ck.require("%s: the judgements of the split asked for are read" % tag, same_path(p, *want), fn, "%s is read" % show(p)[:200], closed=not opaque_ops(p))
    if rd is FALSE:
        if r.op != "comp":
            ck.require("%s: one judgement per line" % tag, None, fn, "the result is %s" % show(r)[:200])
            return
        N, (guard, body), v = tm.open_binder(r)
        line = fields(ck, tag, fn, index(body, ZERO), index(body, ONE), index(body, const(2)))
        if line is not None:
            ck.require("%s: every line after the header is read" % tag, lines_of(N, line, v, 1) is not None, fn, "%s for %s entries" % (show(line)[-60:], show(N)[:60]), closed=not opaque_ops(N))
            ck.require("%s: no judgement is skipped" % tag, shape_free(guard, line) is TRUE, fn, "only with %s" % show(guard)[:200], closed=not opaque_ops(guard))
        return
    grouped(ck, e, r, tag, fn)


def grouped(ck, e, r, tag, fn):
    """{query: {document: grade}}: one generic iteration, for a query that is new and one that is known"""
    if r.op not in ("unk", "foldc", "ddict", "mkdict", "comp", "mu", "whilev"):
        ck.require("%s: judgements grouped by query" % tag, None, fn, "the result is %s" % show(r)[:200])
        return
    muts = [x for x in effects(e, "mutate", "method", "maybe_mutate") if x.mod == MOD and isinstance(x.d.get("ref"), tm.T)]
    stores = [x for x in muts if x.kind == "mutate" and x.d["how"] in ("setitem", "setdefault", "update", "set") and x.loops]
    # the tables: cells whose content survives the loop
    inner = []       # (effect, outer reference, document, grade)
    for x in stores:
        if x.d["how"] in ("setitem", "set"):
            q = x.d["value"]
            if isinstance(q, tm.T) and q.op == "toint":
                inner.append((x, x.d["ref"], x.d["index"], q))
        elif x.d["how"] == "update":
            c = x.d.get("content", x.d["value"])
            if isinstance(c, tm.T) and c.op == "dict" and len(c.a[0]) == 1 and c.a[0][0][1].op == "toint":
                inner.append((x, x.d["ref"], c.a[0][0][0], c.a[0][0][1]))
    for x in muts:
        if x.kind == "method" and x.d["name"] in ("update", "__setitem__") and x.loops:
            a = x.d["args"]
            if x.d["name"] == "update" and len(a) == 1 and a[0].op == "dict" and len(a[0].a[0]) == 1 and a[0].a[0][0][1].op == "toint":
                inner.append((x, x.d["ref"], a[0].a[0][0][0], a[0].a[0][0][1]))
            elif len(a) == 2 and a[1].op == "toint":
                inner.append((x, x.d["ref"], a[0], a[1]))
    if not inner:
        outer = [x for x in stores if isinstance(x.d["value"], tm.T) and kind(x.d["value"]) == "dict"]
        ck.require("%s: judgements grouped by query" % tag, None, fn, "no store of a grade found (%d stores of tables)" % len(outer)) if not outer else \
            ck.add("%s: every query keeps all its judged documents" % tag, BAD, "the table of a query known already is replaced or left as it is", outer[0].where)
        return
    lines = set()
    for x, ref, c, s in inner:
        q = query_key(ref)
        if q is None and ref.op == "loc":
            # a table made for this line, stored under its key
            ks = {y.d["index"].key: y.d["index"] for y in stores if y.d["how"] in ("setitem", "set", "setdefault") and isinstance(y.d["value"], tm.T) and y.d["value"].key == ref.key}
            if len(ks) == 1:
                q = list(ks.values())[0]
        if q is None:
            ck.require("%s: the grade is stored under its query" % tag, None, x.where, "stored in %s" % show(ref)[:200])
            continue
        line = fields(ck, tag, x.where, q, c, s)
        if line is None:
            continue
        lines.add(line.key)
        N, v = x.loops[-1][1], x.loops[-1][2]
        ck.require("%s: every line after the header is read" % tag, lines_of(N, line, v, 1) is not None, x.where, "%s for %s entries" % (show(line)[-60:], show(N)[:60]), closed=not opaque_ops(N))
        for there in (True, False):
            pc = present(shape_free(in_loops(x), line), q, there)
            ck.require("%s: a judgement of a query %s is kept" % (tag, "met before" if there else "not met before"),
                       pc is TRUE or any(present(shape_free(in_loops(y), line), q, there) is TRUE for y, _, _, _ in inner if y is not x), x.where,
                       "only with %s" % show(pc)[:200], closed=not opaque_ops(pc, allow=("mu", "strm")))
            tgt = present(ref, q, there)
            if there:
                ck.require("%s: the grades stored before are kept" % tag, tgt.op in ("index", "dget") or pc is FALSE, x.where, "the grade is stored in %s" % show(tgt)[:200], closed=not opaque_ops(tgt, allow=("mu", "strm")))
    for x in stores:
        if any(x is y for y, _, _, _ in inner) or x.d["how"] not in ("setitem", "set"):
            continue
        if not (isinstance(x.d["value"], tm.T) and (kind(x.d["value"]) == "dict" or x.d["value"].op == "loc")):
            continue
        q = x.d["index"]
        pc = present(in_loops(x), q, True)
        ck.require("%s: the table of a query met before is not replaced" % tag, pc is FALSE, x.where, "replaced with %s when %s" % (show(x.d["value"])[:100], show(pc)[:200]),
                   closed=not opaque_ops(pc, allow=("mu", "strm")))
    for x in muts:
        how = x.d.get("name") if x.kind == "method" else x.d.get("how")
        if how in ("pop", "clear", "popitem", "del", "delitem") and kind(x.d["ref"]) == "dict":
            ck.add("%s: no judgement is removed" % tag, BAD, "%s at %s" % (how, x.where), x.where)


def query_key(ref):
    """key of the entry of the outer table that ref denotes"""
    for x in tm.subterms(ref):
        if x.op == "dget" or x.op == "index" and (x.a[0].op in ("mu", "ddict", "loc") or kind(x.a[0]) == "dict"):
            return x.a[1]
    return None


def present(t, q, there):
    known = {}
    for x in tm.subterms(t):
        if x.op == "in" and x.a[0].key == q.key:
            known[x.key] = there
        if x.op == "is" and any(y.op == "dget" and y.a[1].key == q.key for y in x.a[:2]) and any(y is NONEV for y in x.a[:2]):
            known[x.key] = not there
        if x.op == "truth" and x.a[0].op == "dget" and x.a[0].a[1].key == q.key and not there:
            known[x.key] = False
    return tm.restrict(t, known)


# -- merging
def merging(ck):
    e = base.engine()
    module(e)
    dp = S("data_path", STR)
    r, st = call(e, MOD, "merge_cqa_dupstack", [dp], {})
    ck.use(e)
    fn = "merge_cqa_dupstack"
    ended(ck, e, fn, lambda x: x.mod == MOD)
    for parts, up in ((("corpus.jsonl",), 1), (("queries.jsonl",), 1), (("qrels", "test.tsv"), 2)):
        name = "/".join(parts)
        tag = "%s, %s" % (fn, name)
        final = None
        files = {x.d["file"].a[0].key: x.d["file"].a[0] for x in effects(e, "write")}
        for x in effects(e, "replace"):
            if same_path(x.d["dst"], dp, *[const(p) for p in parts]):
                final = x.d["src"]
        if final is None:
            for p in files.values():
                if same_path(p, dp, *[const(p) for p in parts]):
                    final = p
        if final is None:
            ck.add("%s: the file is written" % tag, UNDEC, "no file appears under this name", fn)
            continue
        ws = [x for x in effects(e, "write") if x.d["file"].a[0].key == final.key]
        loops = {tuple(l[0] for l in x.loops) for x in ws if x.loops}
        heads = [x for x in ws if not x.loops]
        if len(loops) != 1 or not all(len(l) == 2 for l in loops):
            ck.add("%s: one loop over the parts and their lines" % tag, UNDEC, "%d writing loops" % len(loops), fn)
            continue
        body = [x for x in ws if x.loops]
        (L1, N1, v1, *_), (L2, N2, v2, *_) = body[0].loops[-2:]
        if "how" in body[0].d and any(x.d["how"] == "writelines" for x in ws):
            ck.add("%s: lines written one by one" % tag, UNDEC, "writelines", fn)
            continue
        pieces = []
        for x in body:
            c = x.d["content"]
            pieces += list(c.a[0]) if c.op == "cat" else [c]
        line = None
        for p in pieces:
            line = line or first_line(p)
        where = body[0].where
        if line is None:
            ck.add("%s: lines of the parts are copied" % tag, UNDEC, "no line of a part is written", where)
            continue
        part = line.a[0].a[0]
        skip = 1 if up == 2 else 0
        ck.require("%s: every line of a part is copied" % tag, lines_of(N2, line, v2, skip) is not None, where, "%s for %s iterations" % (show(line)[-40:], show(N2)[:100]), closed=not opaque_ops(N2, allow=("meth",)))
        globs = [y for y in tm.subterms(part) if y.op == "meth" and y.a[1] in ("glob", "rglob")]
        ok = bool(globs) and N1.key == length(globs[0]).key and globs[0].a[1] == "glob" and tm.is_const(globs[0].a[2], "*/" + name) and same_path(globs[0].a[0], dp)
        ck.require("%s: every part is copied" % tag, ok, where, "%s iterations over %s" % (show(N1)[:100], show(part)[:100]), closed=bool(globs) and all(g.a[2].op == "const" for g in globs))
        for x in body:
            c = shape_free(in_loops(x), line)
            ck.require("%s: no line is skipped" % tag, c is TRUE, x.where, "only with %s" % show(c)[:200], closed=not opaque_ops(c, allow=("strm", "meth")))
        pname = part
        while pname.op == "path":
            pname = pname.a[0]
        for _ in range(up):
            pname = mk("attr", pname, "parent")
        if up == 1:
            ok = len(pieces) == 2 and pieces[0].op == "jdumps" and tm.is_const(pieces[1], "\n")
            j = pieces[0].a[0] if pieces[0].op == "jdumps" else None
            closed = not any(opaque_ops(p, allow=("meth", "strm")) for p in pieces)
            ck.require("%s: each record is one line" % tag, ok, where, "written: %s" % ", ".join(show(p)[:100] for p in pieces), closed=closed)
            if not ok:
                continue
            keeps = j.op == "setitem" and tm.is_const(j.a[1], "_id") and j.a[0].op == "jloads" and strip_ws(j.a[0].a[0]).key == line.key
            ck.require("%s: the record is kept apart from its ID" % tag, keeps, where, "written: %s" % show(j)[:300], closed=closed)
            if keeps:
                prefixed(ck, tag, where, j.a[2], pname, lambda t: id_of(t) is not None and id_of(t).key == j.a[0].key, closed)
        else:
            row = join_fields(pieces)
            closed = not any(opaque_ops(p, allow=("meth", "strm")) for p in pieces)
            ck.require("%s: a line has three fields" % tag, row is not None and len(row) == 3, where, "written: %s" % ", ".join(show(p)[-60:] for p in pieces), closed=closed)
            if row is None or len(row) != 3:
                continue
            for i, nm in ((0, "query"), (1, "document")):
                prefixed(ck, "%s, %s" % (tag, nm), where, row[i], pname, lambda t: cell(t, i) is not None and cell(t, i).key == line.key, closed)
            s = row[2]
            ck.require("%s: the grade is kept" % tag, len(s) == 1 and cell(unstr(s[0]), 2) is not None and cell(unstr(s[0]), 2).key == line.key, where, "grade %s" % ", ".join(show(p)[-60:] for p in s), closed=closed)
            ck.require("%s: a header that the loader can skip comes first" % tag, len(heads) == 1 and heads[0].seq < body[0].seq and heads[0].d["content"].op == "const"
                       and heads[0].d["content"].a[0].endswith("\n") and heads[0].d["content"].a[0].count("\n") == 1, heads[0].where if heads else where,
                       "%d writes before the lines" % len(heads), closed=all(h.d["content"].op == "const" for h in heads))


def unstr(t):
    while t.op in ("strof", "toint"):
        t = t.a[0]
    return t


def join_fields(pieces):
    """pieces of a line -> fields (lists of pieces) separated by tabs and closed by a newline"""
    flat = []
    for p in pieces:
        if p.op == "const" and isinstance(p.a[0], str):
            cur = ""
            for ch in p.a[0]:
                if ch in "\t\n":
                    if cur:
                        flat.append(const(cur))
                    flat.append(ch)
                    cur = ""
                else:
                    cur += ch
            if cur:
                flat.append(const(cur))
        else:
            flat.append(p)
    if not flat or flat[-1] != "\n" or flat.count("\n") != 1:
        return None
    out = [[]]
    for p in flat[:-1]:
        if isinstance(p, str):
            out.append([])
        else:
            out[-1].append(p)
    return out


def prefixed(ck, tag, where, t, pname, is_id, closed):
    """t is '<part>_<id>'"""
    ps = list(t) if isinstance(t, list) else (list(t.a[0]) if t.op == "cat" else [t])
    want_name = None
    while ps and ps[-1].op == "strof":
        ps[-1] = ps[-1].a[0]
    ok = len(ps) == 3 and tm.is_const(ps[1], "_") and is_id(ps[2])
    if ok:
        n = unstr(ps[0])
        ok = n.op in ("attr", "bmeth") and n.a[1] == "name" and strip_path(n.a[0]) == strip_path(pname)
    ck.require("%s: the ID is prefixed with the name of its part" % tag, ok, where, "the ID becomes %s" % ", ".join(show(p)[:120] for p in ps), closed=closed)


def strip_path(t):
    n = 0
    while t.op in ("attr", "bmeth", "path", "strof"):
        if t.op in ("attr", "bmeth"):
            if t.a[1] != "parent":
                return (t.key, n)
            n += 1
        t = t.a[0]
    return (t.key, n)


# ---------------------------------------------------------------------------- C32
QRELS = S("qrels", DictOf(DictOf(INT)))
RES = S("results", DictOf(DictOf(FLOAT)))
MEASURES = (("NDCG", "NDCG@%d", "ndcg_cut", "ndcg_cut_%d"), ("MAP", "MAP@%d", "map_cut", "map_cut_%d"),
            ("recall", "Recall@%d", "recall", "recall_%d"), ("precision", "P@%d", "P", "P_%d"))


def c32(ck):
    for ks in ((1,), (1, 10), (10, 5, 100)):
        for flag in (None, TRUE, FALSE):
            ck.guard("k_values=%s, ignore_identical_ids=%s" % (list(ks), "default" if flag is None else show(flag)), lambda: evaluation(ck, ks, flag))


def evaluation(ck, ks, flag):
    e = base.engine(avail={"pytrec_eval": True})
    module(e)
    kw = {} if flag is None else {"ignore_identical_ids": flag}
    r, st = call(e, MOD, "evaluate", [QRELS, RES, mk("list", tuple(const(k) for k in ks), ty=ListOf(INT))], kw)
    ck.use(e)
    fn = "evaluate"
    tag = "k_values=%s, ignore_identical_ids=%s" % (list(ks), "default" if flag is None else show(flag))
    ck.require("%s: evaluates" % tag, True if r is not None else None, fn, "no normal return")
    if r is None:
        return
    # inputs
    for x in effects(e, "mutate", "maybe_mutate"):
        rt = x.d.get("root")
        ck.count("stores")
        if rt is not None and rt.op == "sym" and rt.key in (QRELS.key, RES.key):
            ck.add("%s: the caller's %s are not modified" % (tag, rt.a[0]), BAD if x.kind == "mutate" else UNDEC, "%s at %s%s" % (x.d.get("how"), rt.a[0], x.d.get("path", "")), x.where)
    ck.require("%s: stores examined" % tag, True, fn)
    # the evaluator
    evs = [x for x in effects(e, "call") if x.d.get("name") == "pytrec_eval.RelevanceEvaluator"]
    if len(evs) != 1:
        ck.add("%s: one evaluator" % tag, UNDEC, "%d evaluators made" % len(evs), fn)
        return
    ev = evs[0]
    args = list(ev.d["args"]) + [NONEV] * 2
    q = ev.d["kwargs"].get("query_relevance", args[0])
    ms = ev.d["kwargs"].get("measures", args[1])
    ck.require("%s: judged against the given judgements" % tag, q.key == QRELS.key or q.op == "copyof" and q.a[0].key == QRELS.key, ev.where, "judged against %s" % show(q)[:200], closed=not opaque_ops(q))
    strs = [x.a[0] for x in tm.subterms(ms) if x.op == "const" and isinstance(x.a[0], str)]
    have = {}
    for s in strs:
        fam, _, cut = s.partition(".")
        have.setdefault(fam, set()).update(cut.split(",") if cut else [])
    known = ms.op in ("mkset", "set", "list", "tuple") and not opaque_ops(ms)
    for nm, _, fam, _ in MEASURES:
        missing = [k for k in ks if str(k) not in have.get(fam, ())]
        ck.require("%s: %s asked for at each cutoff" % (tag, nm), not missing, ev.where, "%s is not asked for at %s" % (fam, missing), closed=known)
    runs = [x for x in effects(e, "method") if x.d["name"] == "evaluate" and x.d["recv"].op in ("call", "callres") and "pytrec_eval.RelevanceEvaluator" in show(x.d["recv"].a[0])]
    if len(runs) != 1:
        ck.add("%s: one evaluation" % tag, UNDEC, "%d calls of evaluate" % len(runs), fn)
        return
    run = runs[0]
    ck.guard("%s: results evaluated" % tag, lambda: evaluated(ck, e, tag, run, flag is not FALSE))
    # the averages
    scs = {x.key: x for x in tm.find_ops(r, "meth") if x.a[1] == "evaluate"}
    if len(scs) != 1:
        ck.add("%s: averages of one evaluation" % tag, UNDEC, "%d evaluations in the result" % len(scs), fn)
        return
    SC = list(scs.values())[0]
    n = length(SC)
    pos = {tm.lt0(sub(n, ONE)).key: False, eq(n, ZERO).key: False}
    parts = [index(r, const(i)) for i in range(4)]
    ck.require("%s: four tables are returned" % tag, r.op == "tuple" and len(r.a[0]) == 4, fn, "the result is %s" % show(r)[:200], closed=r.op in ("tuple", "list", "dict"))
    v = fresh_var()
    for i, (nm, key, _, sk) in enumerate(MEASURES):
        if r.op != "tuple" or len(r.a[0]) != 4:
            break
        d = parts[i]
        if d.op == "dict":
            names = sorted(k.a[0] for k, _ in d.a[0])
            ck.require("%s: %s has one entry per cutoff" % (tag, nm), names == sorted(key % k for k in set(ks)), fn, "entries %s" % names)
        for k in ks:
            got = tm.restrict(index(d, const(key % k)), pos)
            if got.op == "round":
                dig = got.a[1] if len(got.a) > 1 else ZERO
                ck.require("%s: %s@%d is not rounded to fewer than five decimals" % (tag, nm, k), tm.numval(dig) is not None and tm.numval(dig) >= 5, fn, "rounded to %s" % show(dig), closed=dig.op == "const")
                got = got.a[0]
            one = index(index(SC, index(tm.keys_(SC), v)), const(sk % k))
            want = div(sumc(n, TRUE, one, v), n)
            ck.same("%s: %s@%d is the sum over the judged queries divided by their number" % (tag, nm, k), got, tm.restrict(want, pos), fn, "the average differs", allow=("meth", "call", "callres", "lastc"))


def evaluated(ck, e, tag, run, ignore):
    """the results handed to the evaluator"""
    arg = run.d["args"][0] if run.d["args"] else list(run.d["kwargs"].values())[0]
    where = run.where
    while arg.op == "copyof":
        arg = arg.a[0]
    plain = arg.key == RES.key
    filt = None
    if arg.op == "mkdict" and arg.a[0].op == "comp":
        N, (g, body), v = tm.open_binder(arg.a[0])
        k, val = index(body, ZERO), index(body, ONE)
        qk = index(tm.keys_(RES), v)
        if N.key == length(RES).key and g is TRUE and k.key == qk.key:
            x = index(RES, qk)
            while val.op in ("copyof", "fresh"):
                val = val.a[0]
            if val.key == x.key:
                plain = True
            elif val.op == "mkdict" and val.a[0].op == "comp":
                N2, (g2, b2), v2 = tm.open_binder(val.a[0])
                pk = index(tm.keys_(x), v2)
                if N2.key == length(x).key and index(b2, ZERO).key == pk.key and index(b2, ONE).key == index(x, pk).key:
                    filt = (g2, qk, pk)
    if filt is None and not plain:
        ck.require("%s: the given results are evaluated" % tag, None, where, "evaluated: %s" % show(arg)[:300])
        return
    rem = []
    odd = []
    for x in effects(e, "mutate", "maybe_mutate", "method"):
        ref = x.d.get("ref")
        if not isinstance(ref, tm.T) or x.seq > run.seq:
            continue
        base_ = ref
        while base_.op in ("fresh", "copyof"):
            base_ = base_.a[0]
        if base_.op == "mu" or base_.op != "index" or base_.a[0].key != RES.key:
            continue
        how = x.d.get("name") if x.kind == "method" else x.d.get("how")
        if how in ("pop", "del", "delitem"):
            rem.append((x, base_.a[1], x.d.get("index") if x.d.get("index") is not None else (x.d.get("args") or [None])[0]))
        elif how not in ("get", "keys", "items", "values", "copy"):
            odd.append(x)
    for x in odd:
        ck.add("%s: the results are evaluated as given" % tag, UNDEC, "%s at %s" % (x.d.get("how") or x.d.get("name"), x.where), x.where)
    only, all_ = True, filt is not None
    why = ""
    closed = True
    if filt is not None:
        g, q, p = filt
        c = eq(q, p)
        if tm.restrict(g, {c.key: False}) is not TRUE:
            only, why = False, "documents are kept only with %s" % show(g)[:200]
        if tm.restrict(g, {c.key: True}) is not FALSE:
            all_ = False
        closed = not opaque_ops(g, allow=("strm",))
    for x, q, p in rem:
        if p is None:
            closed = False
            continue
        c = eq(q, p)
        pc = in_loops(x)
        if c is not TRUE and tm.restrict(pc, {c.key: False}) is not FALSE:
            only, why = False, "%s is left out of the results of %s with %s" % (show(p)[:100], show(q)[:100], show(pc)[:200])
            closed = closed and not opaque_ops(pc, allow=("strm",)) and not opaque_ops(p)
        if c is TRUE:
            known = {y.key: True for y in tm.subterms(pc) if y.op == "in"}
            if tm.restrict(pc, known) is TRUE:
                all_ = True
        elif tm.restrict(pc, {c.key: True}) is TRUE:
            pv = {l[2].a[0]: l for l in x.loops if len(l) > 2}
            iv = p.a[1] if p.op == "index" else None
            if iv is not None and iv.op == "lv" or iv is not None and len(iv.fv) == 1:
                all_ = True
    if ignore:
        ck.require("%s: only documents with the query's own ID are left out" % tag, only, where, why, closed=closed)
        ck.require("%s: documents with the query's own ID are left out" % tag, all_, where, "they are evaluated like any other", closed=closed and not rem and not odd and not e.unmodelled)
    else:
        ck.require("%s: no document is left out" % tag, filt is None and not rem, where, "documents are left out", closed=closed)


# ---------------------------------------------------------------------------- C35
def by_case(t, v, depth=4):
    """[(t, v)] for the outcomes of the conditions on an index v >= 0 alone; v is a constant where they fix it"""
    for c in [x.a[0] for x in tm.find_ops(t, "phi")]:
        if c.op in ("lt0", "eq0", "eq", "lt", "truth") and depth and c.fv == v.fv and len(c.fv) == 1 and not tm.find_ops(c, "sym", "phi"):
            out = []
            for val in (True, False):
                hits = [n for n in range(60) if (tm.replace(c, {v: const(n)}) is TRUE) == val]
                if len(hits) == 1 and tm.replace(c, {v: const(10 ** 9)}) is (FALSE if val else TRUE):
                    out.append((tm.replace(t, {v: const(hits[0])}), const(hits[0])))
                elif hits:
                    out += by_case(tm.restrict(t, {c.key: val}), v, depth - 1)
            return out
    return [(t, v)]


def c35(ck):
    e = base.engine()
    module(e)
    res = S("results", ListOf(ListOf(STR)))
    sco = S("scores", Ty("array", Ty("array", FLOAT)))
    qid = S("query_ids", ListOf(STR))

    def pair(res, tag):
        e = base.engine()
        module(e)
        r, st = call(e, MOD, "postprocess_results_for_eval", [res, sco, qid], {})
        ck.use(e)
        fn = "postprocess_results_for_eval"
        if r is None:
            ck.add("%s: returns" % tag, UNDEC, "no normal return", fn)
            return
        if r.op != "mkdict" or r.a[0].op != "comp":
            ck.require("%s: one entry per query" % tag, None, fn, "the result is %s" % show(r)[:300])
            return
        N, (g, body), v = tm.open_binder(r.a[0])
        k, val = index(body, ZERO), index(body, ONE)
        ls = {length(qid).key, length(res).key, length(sco).key}
        if not (N.key in ls or N.op == "min" and {x.key for x in N.a[0]} <= ls):
            ck.same("%s: as many entries as queries" % tag, N, length(qid), fn, "the number of entries differs")
        ck.require("%s: no query is left out" % tag, g is TRUE, fn, "only with %s" % show(g)[:200], closed=not opaque_ops(g))
        ck.same("%s: entry i is keyed by the ID of query i" % tag, k, index(qid, v), fn, "the key differs")
        for val, v in by_case(val, v):
            if val.op != "mkdict" or val.a[0].op != "comp":
                ck.require("%s: one entry per document" % tag, None, fn, "the table of a query is %s" % show(val)[:300])
                continue
            N2, (g2, b2), w = tm.open_binder(val.a[0])
            h, s = index(res, v), index(sco, v)
            ls = {length(h).key, length(s).key}
            okn = N2.key in ls or N2.op == "min" and {x.key for x in N2.a[0]} <= ls
            ck.require("%s: every document of the query is kept" % tag, okn, fn, "%s entries" % show(N2)[:200], closed=not opaque_ops(N2))
            ck.require("%s: no document is left out" % tag, g2 is TRUE, fn, "only with %s" % show(g2)[:200], closed=not opaque_ops(g2))
            ck.same("%s: document j of query i" % tag, index(b2, ZERO), index(h, w), fn, "the document differs")
            got = index(b2, ONE)
            while got.op in ("tofloat", "item", "cast"):
                got = got.a[0]
            ck.same("%s: has score j of query i" % tag, got, index(s, w), fn, "the score differs")
        for x in effects(e, "mutate"):
            rt = x.d.get("root")
            ck.require("%s: the arguments are not modified" % tag, not (rt is not None and rt.op == "sym"), x.where, "%s of %s" % (x.d.get("how"), show(rt) if rt is not None else ""))
    ck.guard("lists of documents", lambda: pair(res, "lists of documents"))
    ck.guard("array of documents", lambda: pair(S("results", Ty("array", Ty("array", STR))), "array of documents"))


# ---------------------------------------------------------------------------- C36
def c36(ck):
    for red in (FALSE, TRUE, None):
        ck.guard("download, redownload=%s" % (show(red) if red is not None else "default"), lambda: download(ck, red))
    ck.guard("merge", lambda: merge_safe(ck))


def target(x):
    """(path that an effect puts into the file system, whether it appears there at once and complete)"""
    if x.kind == "open":
        m = x.d["mode"]
        if m.op == "const" and not set("wax+") & set(str(m.a[0])):
            return None
        return x.d["path"], False
    if x.kind == "replace":
        return x.d["dst"], True
    if x.kind == "copyfile":
        return x.d["dst"], False
    if x.kind == "call" and str(x.d.get("name", "")).endswith("urlretrieve"):
        a = x.d["kwargs"].get("filename", x.d["args"][1] if len(x.d["args"]) > 1 else None)
        return (a, False) if a is not None else None
    if x.kind == "method" and x.d["name"] in ("write_bytes", "write_text"):
        return x.d["recv"], False
    return None


def pkey(p):
    while p.op in ("path", "strof", "fspath"):
        p = p.a[0]
    if p.op in ("pjoin", "attr", "cat"):
        return tuple(flat_path(p))
    return p.key


def safe_final(ck, e, tag, final, fn, download=False):
    fk = pkey(final)
    ws = [(x, t) for x in e.effects for t in [target(x)] if t is not None]
    mine = [(x, t) for x, t in ws if pkey(t[0]) == fk]
    reps = [x for x, t in mine if t[1] and pkey(x.d["src"]) != fk]
    for x, t in mine:
        ck.count("writers_of_final_names")
        ck.require("%s: nothing is written directly under the final name" % tag, x in reps, x.where, "%s %s writes %s" % (x.kind, x.d.get("name", ""), show(t[0])[:200]))
    if not reps:
        ck.require("%s: the file appears under its final name" % tag, True if mine else False, fn, "nothing is moved to %s" % show(final)[:200],
                   closed=bool(ws) and not any(opaque_ops(t[0], allow=("meth",)) for _, t in ws))
        return
    for rep in reps:
        tk = pkey(rep.d["src"])
        pc = pc_of(rep)
        ck.require("%s: the file is not moved to its final name after a failure" % tag, not (rep.fin and rep.fin[1] == "exc") and noexc(pc) is not FALSE, rep.where,
                   "the move at %s is reached when writing failed" % rep.where)
        temp = [(x, t) for x, t in ws if pkey(t[0]) == tk and x is not rep]
        opens = [x for x, t in temp if x.kind == "open"]
        others = [x for x, t in temp if x.kind != "open"]
        writes = [x for x in effects(e, "write") if any(x.d["file"].key == o.d["file"].key for o in opens)]
        if not temp:
            ck.require("%s: the file moved was written" % tag, None, rep.where, "nothing writes %s" % show(rep.d["src"])[:200])
            continue
        for o in opens:
            m = o.d["mode"]
            ck.require("%s: the partial file is written from its start" % tag, not (m.op == "const" and set("a") & set(str(m.a[0]))), o.where, "what an interrupted run left is kept: mode %s" % show(m))
            ck.require("%s: the file moved was written by this call" % tag, tm.land(noexc(pc), tm.lnot(noexc(pc_of(o)))) is FALSE, rep.where,
                       "moved without having been written when %s" % show(tm.land(noexc(pc), tm.lnot(noexc(pc_of(o)))))[:200], closed=not opaque_ops(tm.land(pc, tm.lnot(pc_of(o))), allow=("meth", "call", "callres", "whilev")))
            f = o.d["file"].key
            closes = [x for x in e.effects if x.kind == "ctx_exit" and x.d["cm"].key == f and not (x.fin and x.fin[1] == "exc") or x.kind == "close" and x.d.get("value") is not None and x.d["value"].key == f]
            closes = [x for x in closes if x.seq < rep.seq]
            ck.require("%s: the file is closed before it is moved" % tag, bool(closes), rep.where, "the file opened at %s is still open when moved" % o.where)
            late = [x for x in writes if closes and x.seq > max(c.seq for c in closes)] + [x for x in writes if x.seq > rep.seq]
            ck.require("%s: everything is written before the move" % tag, not late, late[0].where if late else rep.where, "written after the move")
        # failures that are swallowed on the way
        reads = [y for y in effects(e, "open") if any(o.seq < y.seq < rep.seq for o in opens) and target(y) is None]
        for x in writes + opens + others + reads + [y for y in effects(e, "method", "call") if any(o.seq < y.seq < rep.seq for o in opens)]:
            for tr in x.tries:
                if tr.atom is None or tr in rep.tries:
                    continue
                c = tm.restrict(pc, {tr.atom.key: True})
                ck.require("%s: a failure while writing prevents the move" % tag, c is FALSE, rep.where, "an exception at %s is caught and the file moved nevertheless" % x.where,
                           closed=not opaque_ops(c, allow=("meth", "call", "callres", "whilev", "exc")))
        if download:
            complete(ck, e, tag, rep, pc, opens, others)


def complete(ck, e, tag, rep, pc, opens, others):
    """is the number of bytes received compared with the length announced?"""
    if any(x.kind == "call" and str(x.d["name"]).endswith("urlretrieve") for x in others):
        ck.add("%s: a truncated download is noticed" % tag, OK, "", rep.where)      # urlretrieve raises ContentTooShortError
        return
    total = None
    for x in tm.subterms(pc):
        if x.op == "toint" and any(y.op == "const" and isinstance(y.a[0], str) and y.a[0].lower() == "content-length" for y in tm.subterms(x)):
            total = x
    read = [x for x in effects(e, "method") if x.d["name"] in ("read", "read1", "readinto") and x.seq < rep.seq] + [x for x in effects(e, "write") if x.d.get("how") == "copyfileobj"]
    if total is None:
        ck.require("%s: a truncated download is noticed" % tag, False if read else None, rep.where, "the archive is moved without regard to the announced length")
        return
    good = None
    for x in tm.subterms(pc):
        if total.key not in {y.key for y in tm.subterms(x)}:
            continue
        if x.op == "lt0":
            c = dict(tm.as_poly(x.a[0])).get(((total, 1),)) or tm.as_poly(x.a[0]).get(((total, 1),))
            if c is None:
                continue
            rest = add(x.a[0], mul(const(-c), total))
            short = c < 0                      # received - total < 0: truncated
            ok = tm.restrict(pc, {x.key: short}) is FALSE
            if rest.op == "const":
                continue                        # a test of the length alone
            k = tm.as_poly(rest).get((), 0)
            if ok and (k > 0 if short else k < -1):
                ck.require("%s: every missing byte is noticed" % tag, False, rep.where, "the archive is moved when up to %d bytes are missing: %s" % (k if short else -1 - k, show(x)[:200]))
            good = (good or ok) and True if ok else good or False
            received(ck, e, tag, rest, c, rep)
        elif x.op == "eq":
            ok = tm.restrict(pc, {x.key: False}) is FALSE
            other = x.a[1] if x.a[0].key == total.key else x.a[0]
            if other.op == "const":
                continue
            good = good or ok
            received(ck, e, tag, other, -1, rep)
    ck.require("%s: a truncated download is noticed" % tag, bool(good), rep.where, "the archive is moved even when fewer bytes arrived than announced", closed=good is not None or bool(read))


def received(ck, e, tag, rest, c, rep):
    """the byte count must grow by the length of what was read"""
    for w in tm.find_ops(rest, "whilev"):
        m, nx, wc = e.whiles.get(w.key, (None, None, None))
        if m is None or nx is None:
            continue
        d = sub(nx, m)
        ok = d.op == "len" or d.op == "phi" and all(y.op == "len" or tm.is_zero(y) for y in (d.a[1], d.a[2]))
        ck.require("%s: the bytes received are counted" % tag, ok, rep.where, "the count grows by %s" % show(d)[:200], closed=d.op == "const" or not opaque_ops(d, allow=("meth", "call", "callres")))


def download(ck, red):
    fn = "download_dataset"
    tag = "download, redownload=%s" % (show(red) if red is not None else "default")
    kw = {} if red is None else {"redownload": red}
    e0 = base.engine()
    module(e0)
    z, _ = call(e0, MOD, fn, [DATA], {"save_dir": SAVE, "unzip": FALSE, **kw})
    ck.use(e0)
    if z is None:
        ck.add("%s: returns the archive" % tag, UNDEC, "no normal return", fn)
        return
    safe_final(ck, e0, tag, z, fn, download=True)
    for d in (None,):
        e = base.engine()
        module(e)
        r, st = call(e, MOD, fn, [const(d) if d else DATA], {"save_dir": SAVE, **kw})
        ck.use(e)
        t2 = "%s, unzip, %s" % (tag, d or "any dataset")
        z2 = z
        reps = [x for x in effects(e, "replace") if pkey(x.d["dst"]) == pkey(z2)]
        if d is None:
            safe_final(ck, e, t2, z, fn, download=True)
        for x in effects(e, "method"):
            if x.d["name"] in ("extractall", "extract") and x.d["recv"].op in ("call", "callres"):
                a = x.d["recv"].a[1]
                src = a[0] if isinstance(a, tuple) else a
                if d is None:
                    ck.require("%s: the archive under the final name is extracted" % t2, isinstance(src, tm.T) and pkey(src) == pkey(z), x.where, "%s is extracted" % (show(src)[:200] if isinstance(src, tm.T) else src),
                               closed=isinstance(src, tm.T) and not opaque_ops(src))
                    ck.require("%s: extracted after the download is complete" % t2, all(y.seq < x.seq for y in reps), x.where, "extracted before the archive is in place")


def merge_safe(ck):
    e = base.engine()
    module(e)
    dp = S("data_path", STR)
    r, st = call(e, MOD, "merge_cqa_dupstack", [dp], {})
    ck.use(e)
    for parts in (("corpus.jsonl",), ("queries.jsonl",), ("qrels", "test.tsv")):
        final = E.path(dp)
        for p in parts:
            final = mk("pjoin", final, const(p))
        ck.guard("merge, %s" % "/".join(parts), lambda: safe_final(ck, e, "merge, %s" % "/".join(parts), final, "merge_cqa_dupstack"))


# ---------------------------------------------------------------------------- C38
def c38(ck):
    depth = 6 if ck.tier == "quick" else 8
    ck.guard("timer", lambda: timers(ck, depth))


def timers(ck, depth):
    e = base.engine((BENCH,))
    m = e.get_module(BENCH)
    if "__dead__" in m.env or "Timer" not in m.env:
        raise Anchor(BENCH + ".Timer not found")
    ck.use(e)
    st = State({}, dict(e.base_heap))
    e.cur_mod = m
    T0 = e.call(m.env["Timer"], [], {}, st, None)
    A, B = const("a"), const("b")

    def op(st, name, *args, **kw):
        """one operation: (result, state, clock reads)"""
        s = State({}, dict(st.heap), st.pc, dict(st.lits))
        n0 = getattr(e, "clock", 0)
        try:
            r = e.call(e.get_attr(T0, name, s), list(args), dict(kw), s, None)
        except Dead:
            return None, None, ()
        return e.resolve(r, s), s, tuple(range(n0 + 1, getattr(e, "clock", 0) + 1))

    def now(times, t):
        """replace the clock reads of each operation by the moment of the operation"""
        table = {}
        for x in tm.find_ops(t, "clock"):
            if x.a[0] in times:
                table[x.id] = S("t%d" % times[x.a[0]], FLOAT)
        return tm.subst_map(t, {}, None, table)
    t = lambda i: S("t%d" % i, FLOAT)
    r, s, reads = op(st, "start", A)
    ck.require("a timer can be started", True if s is not None else None, "Timer.start", "start never returns")
    if s is None:
        return
    frontier = [((("start", 0),), s, {r: 0 for r in reads}, "running", t(0), [])]
    for step in range(1, depth + 1):
        nxt = []
        for hist, s, times, mode, since, parts in frontier:
            for name in ("pause", "resume", "stop"):
                if name == "resume" and mode == "running":
                    continue
                if name != "stop" and step == depth:
                    continue
                if name == "pause" and mode == "stopped":
                    continue
                r, s2, reads = op(s, name, A)
                h2 = hist + ((name, step),)
                seq = ", ".join(n for n, _ in h2)
                ck.count("histories")
                if s2 is None:
                    ck.require("%s: returns" % seq, None if e.unmodelled else False, "Timer.%s" % name, "this sequence always raises")
                    continue
                tt = dict(times)
                tt.update({x: step for x in reads})
                p2, m2, since2 = list(parts), mode, since
                if name in ("pause", "stop"):
                    if mode == "running":
                        p2.append(sub(t(step), since))
                    m2, since2 = ("paused" if name == "pause" else "stopped"), None
                else:
                    m2, since2 = "running", t(step)
                if name == "stop":
                    want = const(0)
                    for x in p2:
                        want = add(want, x)
                    ck.same("%s: the time returned is the time it was running" % seq, now(tt, r), want, "Timer.stop", "")
                    if step <= 4:
                        el, s3, _ = op(s2, "elapsed", A, precision=const(7))
                        if el is not None:
                            g = now(tt, el)
                            ck.same("%s: elapsed() is the time it was running" % seq, g.a[0] if g.op == "round" else g, want, "Timer.elapsed", "")
                            if g.op == "round":
                                ck.same("%s: elapsed() rounds to the precision asked for" % seq, g.a[1] if len(g.a) > 1 else ZERO, const(7), "Timer.elapsed", "")
                if step < depth and len(nxt) < 400:
                    nxt.append((h2, s2, tt, m2, since2, p2))
        frontier = nxt
    # a second timer is independent
    r, s, reads = op(st, "start", A)
    tt = {x: 0 for x in reads}
    i = 0
    for name, who in (("start", B), ("pause", A), ("pause", B), ("resume", A), ("resume", B), ("stop", A), ("stop", B)):
        i += 1
        r, s, reads = op(s, name, who)
        if s is None:
            ck.add("two timers: %s returns" % name, UNDEC, "no normal return", "Timer.%s" % name)
            return
        tt.update({x: i for x in reads})
        if name == "stop":
            a = who is A
            want = add(sub(t(2 if a else 3), t(0 if a else 1)), sub(t(i), t(4 if a else 5)))
            ck.same("two timers: the time of %s is its own" % ("the first" if a else "the second"), now(tt, r), want, "Timer.stop", "")
    # misuse
    for name, pre in (("stop", ()), ("elapsed", ()), ("start", ("start",)), ("start", ("start", "stop")), ("start", ("start", "pause")),
                      ("start", ("start", "pause", "resume")), ("elapsed", ("start",)), ("elapsed", ("start", "pause"))):
        s = st
        for p in pre:
            _, s, _ = op(s, p, A)
        n = len(e.effects)
        r, s2, _ = op(s, name, A)
        raised = {x.d["exc"] for x in e.effects[n:] if x.kind == "raise" and not x.d.get("caught")}
        ck.require("%s after %s raises ValueError" % (name, ", ".join(pre) or "nothing"), s2 is None and raised == {"ValueError"}, "Timer.%s" % name, "raises %s" % (sorted(raised) or "nothing"), closed=not e.unmodelled)
    # clocks used by any operation
    clocks = {x.d["name"] for x in effects(e, "clock")}
    for c in clocks:
        ck.require("time is measured with a clock that never goes back", c in ("time.monotonic", "time.perf_counter", "time.monotonic_ns", "time.perf_counter_ns"), "Timer", "%s is used" % c)
