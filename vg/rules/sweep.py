"""C19 (encodings), C21 (pickle), C22 (memory maps): every call site of the package, with the values that reach it."""
import ast
from .base import *  # noqa
from . import base

FILEFN = {"open", "fdopen", "read_text", "write_text", "NamedTemporaryFile", "TemporaryFile", "SpooledTemporaryFile", "savetxt", "loadtxt", "genfromtxt"}
PICKLY = {"pickle", "cPickle", "_pickle", "dill", "cloudpickle", "joblib", "marshal", "shelve", "jsonpickle", "torch", "pandas"}


def modules():
    out = []
    for d, _, fs in os.walk(os.path.join(ROOT, "bm25s")):
        for f in sorted(fs):
            if f.endswith(".py"):
                p = os.path.relpath(os.path.join(d, f), ROOT)[:-3].replace("/", ".")
                out.append((p[:-9] if p.endswith(".__init__") else p, os.path.join(d, f)))
    return sorted(out)


def trees():
    return [(m, os.path.relpath(f, ROOT), ast.parse(open(f, encoding="utf-8").read())) for m, f in modules()]


def callname(c):
    f = c.func
    return f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None


def recvname(c):
    f = c.func
    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
        return f.value.id
    return None


def functions(tree, mod):
    """{qualified name: node} of functions and methods (not nested ones)"""
    out = {}
    for n in tree.body:
        go(n, mod, out)
    return out


def go(n, pre, out):
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
        out[pre + "." + n.name] = n
    elif isinstance(n, ast.ClassDef):
        for m in n.body:
            go(m, pre + "." + n.name, out)
    elif isinstance(n, (ast.If, ast.Try, ast.With)):
        for b in ast.iter_child_nodes(n):
            if isinstance(b, ast.stmt):
                go(b, pre, out)
            elif isinstance(b, ast.ExceptHandler):
                for x in b.body:
                    go(x, pre, out)


def reachers(names):
    """functions that contain a call of one of the names, or call (by name) one that does"""
    calls, where = {}, {}
    for m, f, t in trees():
        for q, n in functions(t, m).items():
            calls[q] = {callname(c) for c in ast.walk(n) if isinstance(c, ast.Call)}
            # classes are called through their name
            where[q] = m
    hot = {q for q, c in calls.items() if c & names}
    while True:
        short = {q.rsplit(".", 1)[1] for q in hot} | {q.rsplit(".", 2)[-2] for q in hot if q.endswith("__init__")}
        # constructing an object runs what its constructor calls
        new = {q for q, c in calls.items() if c & short} | hot
        if new == hot:
            return {q: where[q] for q in hot}
        hot = new


def sweep(ck, names, symbolic=(), configs=({},)):
    """abstract runs of every function that reaches one of the named calls; [(engine, entry function)]"""
    runs = []
    for q, m in sorted(reachers(names).items()):
        for flags in configs:
            def one():
                e = base.engine(mods=(m,))
                e.max_steps = 60000
                f = next((x for x in e.funcs if x.qual == q and not isinstance(x.node, ast.Lambda)), None)
                if f is None:
                    ck.notes.append("not analysed on its own: %s" % q)
                    return
                a = f.node.args
                params = [p.arg for p in a.posonlyargs + a.args]
                nd = len(params) - len(f.defaults)
                args, kw = [], {}
                parts = q[len(m) + 1:].split(".")
                static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.node.decorator_list)
                if len(parts) > 1 and not static:
                    params = params[1:]
                    nd -= 1
                for n, p in enumerate(params):
                    if p in flags:
                        kw[p] = flags[p]
                    elif n < nd:
                        kw[p] = S(p)
                    elif p in symbolic:
                        kw[p] = S(p)
                for p in a.kwonlyargs:
                    if p.arg in flags:
                        kw[p.arg] = flags[p.arg]
                    elif p.arg in symbolic or p.arg not in f.kwdefaults:
                        kw[p.arg] = S(p.arg)
                st = State({}, dict(e.base_heap))
                mod, fv = None, None
                if len(parts) > 1 and parts[-1] == "__init__":
                    mod, fv = lookup(e, m, parts[0], st)
                elif len(parts) > 1 and not static and not any(isinstance(d, ast.Name) and d.id == "classmethod" for d in f.node.decorator_list):
                    mod = e.get_module(m)
                    fv = e.get_attr(S("self", Obj(m + "." + parts[0])), parts[1], st)
                else:
                    mod, fv = lookup(e, m, ".".join(parts), st)
                e.cur_mod = mod
                try:
                    e.call(fv, args, kw, st, None)
                except Dead:
                    pass
                finally:
                    ck.use(e)
                    runs.append((e, q))
                return
            try:
                one()
            except Budget:
                ck.notes.append("analysis budget reached in %s" % q)
            except (RecursionError, Anchor):
                ck.notes.append("not analysed on its own: %s" % q)
            except Exception as ex:
                if os.environ.get("VG_DEBUG"):
                    raise
                ck.notes.append("not analysed on its own: %s (%s)" % (q, type(ex).__name__))
    return runs


def utf8(t):
    return t.op == "const" and isinstance(t.a[0], str) and t.a[0].lower().replace("_", "-") in ("utf-8", "utf8", "utf-8-sig")


def binary(m):
    return m.op == "const" and isinstance(m.a[0], str) and "b" in m.a[0]


def alts(t):
    if t.op == "phi":
        return alts(t.a[1]) + alts(t.a[2])
    return [t]


def attr_default(cls, name):
    """value of an attribute of a freshly constructed object, optional parameters left out"""
    m, c = cls.rsplit(".", 1)
    e = base.engine(mods=(m,))
    f = next((x for x in e.funcs if x.qual == cls + ".__init__"), None)
    if f is None:
        return None
    a = f.node.args
    n = len(a.args) - len(f.defaults) - 1
    st = State({}, dict(e.base_heap))
    r, st = call(e, m, c, [S(p.arg) for p in a.args[1:1 + n]], {}, st)
    return field(e, st, r, name) if r is not None else None


def c19(ck):
    runs = sweep(ck, FILEFN)
    at = {}
    for e, q in runs:
        for x in e.effects:
            if x.kind == "open" and pc_of(x) is not FALSE:
                at.setdefault(x.where, []).append((x.d["mode"], x.d["encoding"], q))
    seen = set()
    for m, f, t in trees():
        shadow = {n.name for n in ast.walk(t) if isinstance(n, ast.FunctionDef)}
        for c in ast.walk(t):
            if not isinstance(c, ast.Call) or callname(c) not in FILEFN:
                continue
            nm, rv = callname(c), recvname(c)
            if nm == "open" and isinstance(c.func, ast.Name) and "open" in shadow:
                continue
            if nm == "open" and rv in ("os", "webbrowser", "tarfile", "Image"):
                continue
            site = "%s:%d" % (f, c.lineno)
            vals = []
            for line in range(c.lineno, (c.end_lineno or c.lineno) + 1):
                k = "%s:%d" % (f, line)
                vals += at.get(k, [])
                seen.add(k)
            ck.count("sites")
            judge(ck, site, c, vals, nm, rv)
    for k in at:
        if k not in seen:
            judge(ck, k, None, at[k], "open", None)
    ck.require("the files of the package are found", ck.counts.get("sites", 0) >= 15, "bm25s", "only %d sites" % ck.counts.get("sites", 0), closed=False)


def judge(ck, site, c, vals, nm, rv):
    name = "%s: text is read and written as UTF-8" % site
    if vals:
        verdict, why = OK, ""
        for mode, enc, q in vals:
            for mo in alts(mode):
                if binary(mo):
                    continue
                for en in alts(enc):
                    if utf8(en):
                        if "sig" in en.a[0].lower() and mo.op == "const" and set(mo.a[0]) & set("wax"):
                            verdict, why = BAD, "written by %s with encoding %s: the text starts with a byte order mark, which readers of UTF-8 JSON reject" % (q, show(en))
                        continue
                    if en.op == "const":
                        if mo.op == "const":
                            verdict, why = BAD, "opened by %s in text mode %s with encoding %s: the locale decides how the text is stored" % (q, show(mo), show(en))
                        elif verdict == OK:
                            verdict, why = UNDEC, "mode %s" % show(mo)
                        continue
                    if en.op == "sym":
                        continue        # named by the caller; the callers are analysed as well
                    if en.op == "attr" and en.a[0].ty is not None and en.a[0].ty.cls:
                        d = attr_default(en.a[0].ty.cls, en.a[1])
                        if d is not None and all(utf8(y) for y in alts(d)):
                            continue
                        if d is not None and all(y.op == "const" for y in alts(d)) and mo.op == "const":
                            verdict, why = BAD, "opened with the attribute %s, which is %s unless chosen otherwise" % (en.a[1], show(d))
                            continue
                    if verdict == OK:
                        verdict, why = UNDEC, "encoding %s" % show(en)[:200]
        ck.add(name, verdict, why, site)
        return
    # not reached by the value analysis: judged from the call itself
    kw = {k.arg: k.value for k in c.keywords}
    if None in kw:
        ck.add(name, UNDEC, "arguments are passed on as a whole", site)
        return
    pos = {"open": 1 if isinstance(c.func, ast.Name) or rv in ("io", "codecs", "gzip", "bz2", "lzma") else 0, "fdopen": 1, "NamedTemporaryFile": 0, "TemporaryFile": 0,
           "SpooledTemporaryFile": 1}.get(nm)
    mode = kw.get("mode", c.args[pos] if pos is not None and len(c.args) > pos else None)
    default = "r" if nm in ("open", "fdopen") and rv not in ("gzip", "bz2", "lzma") else "rb" if rv in ("gzip", "bz2", "lzma") else "w+b" if pos is not None else "r"
    m = default if mode is None else mode.value if isinstance(mode, ast.Constant) else None
    if isinstance(mode, ast.IfExp) and isinstance(mode.body, ast.Constant) and isinstance(mode.orelse, ast.Constant):
        m = mode.body.value if "b" not in mode.body.value else mode.orelse.value
    if m is None:
        ck.add(name, UNDEC, "mode not constant", site)
        return
    if "b" in m or rv in ("gzip", "bz2", "lzma") and "t" not in m:
        ck.add(name, OK, "", site)
        return
    ep = {"open": 3 if pos == 1 and rv != "codecs" else 2, "read_text": 0, "write_text": 1}.get(nm, 99)
    enc = kw.get("encoding", c.args[ep] if len(c.args) > ep else None)
    if enc is None:
        if nm in ("savetxt", "loadtxt", "genfromtxt"):
            ck.add(name, UNDEC, "encoding of %s" % nm, site)
        else:
            ck.add(name, BAD, "opened in text mode without an encoding: the locale decides how the text is stored", site)
    elif isinstance(enc, ast.Constant):
        ck.require(name, isinstance(enc.value, str) and enc.value.lower().replace("_", "-") in ("utf-8", "utf8", "utf-8-sig"), site, "opened with encoding %r" % (enc.value,))
    else:
        ck.add(name, UNDEC, "encoding not constant", site)


# ---------------------------------------------------------------------------- pickle
def args_of(x, names):
    """keyword or positional argument of an np.load / np.save effect"""
    d = dict(x.d.get("kwargs") or {})
    for n, v in zip(names, x.d.get("args") or []):
        d.setdefault(n, v)
    return d


LOADARGS = ("mmap_mode", "allow_pickle", "fix_imports", "encoding")


def c21(ck):
    P = S("allow_pickle", BOOL)
    runs = sweep(ck, {"load", "save", "load_scores", "loads", "memmap"}, configs=({}, {"allow_pickle": P}))
    loads = 0
    for e, q in runs:
        given = any(isinstance(a, tm.T) and a.key == P.key for a in getattr(e, "given", ())) or None
        for x in e.effects:
            if x.kind not in ("np.load", "np.save") or pc_of(x) is FALSE:
                continue
            loads += 1
            d = args_of(x, LOADARGS)
            v = d.get("allow_pickle", FALSE if x.kind == "np.load" else TRUE)
            name = "%s (%s from %s): the caller decides about pickled data" % (x.where, x.kind, q)
            bad = None
            for a in alts(v):
                if x.kind == "np.load" and a.op == "const" and a.a[0]:
                    bad = "allow_pickle is %s although the caller did not ask for it" % show(a)
                elif a.op not in ("const", "sym") and bad is None and opaque_ops(a):
                    bad = False
            if bad is False:
                ck.add(name, UNDEC, show(v)[:200], x.where)
            else:
                ck.require(name, bad is None, x.where, bad or "")
    # the caller's choice reaches every array load and save
    for cls, m, fn, args in (("bm25s", "BM25.load", None, 1), ("bm25s", "BM25.save", SELF_(), 1), ("bm25s", "BM25.load_scores", SELF_(), 1)):
        for method in ("lucene", "bm25l"):
            def one():
                for val in (P, FALSE, TRUE, None):
                    e = base.engine()
                    bm_types(e, [("nonoccurrence_array", Arr(FLOAT)), ("vocab_dict", Ty("dict", NAT))], method=method)
                    e.attr_vals[(BM, "corpus")] = NONEV
                    st = State({}, dict(e.base_heap))
                    call(e, cls, m, ([fn] if fn is not None else []) + [S("save_dir", STR)], {} if val is None else {"allow_pickle": val}, st)
                    ck.use(e)
                    n = 0
                    for x in e.effects:
                        if x.kind not in ("np.load", "np.save") or pc_of(x) is FALSE:
                            continue
                        n += 1
                        v = args_of(x, LOADARGS).get("allow_pickle", FALSE if x.kind == "np.load" else TRUE)
                        want = FALSE if val is None else val
                        ck.same("%s %s, allow_pickle %s: %s at %s" % (m, method, "left out" if val is None else show(val), x.kind, x.where), v, want, x.where,
                                "the caller's choice about pickled data is not honoured")
                    ck.require("%s %s reads or writes arrays" % (m, method), n >= 3 or None, m, "%d array accesses found" % n)
            ck.guard("c21 %s" % m, one)
    # no other deserialiser
    for m, f, t in trees():
        bad = []
        for c in ast.walk(t):
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                for n in ([a.name for a in c.names] if isinstance(c, ast.Import) else [c.module or ""] if not c.level else []):
                    if n.split(".")[0] in PICKLY - {"pandas", "torch"}:
                        bad.append((c.lineno, "import %s" % n))
            if isinstance(c, ast.Call):
                if isinstance(c.func, ast.Name) and c.func.id in ("eval", "exec") or isinstance(c.func, ast.Attribute) and c.func.attr in ("read_pickle", "unsafe_load", "full_load"):
                    bad.append((c.lineno, ast.unparse(c.func)))
                if isinstance(c.func, ast.Attribute) and c.func.attr == "load" and recvname(c) in ("torch", "joblib", "yaml") and not any(k.arg == "Loader" and "Safe" in ast.unparse(k.value) for k in c.keywords):
                    bad.append((c.lineno, ast.unparse(c.func)))
                if isinstance(c.func, ast.Name) and c.func.id == "__import__" or isinstance(c.func, ast.Attribute) and c.func.attr == "import_module":
                    a = c.args[0] if c.args else None
                    if isinstance(a, ast.Constant) and str(a.value).split(".")[0] in PICKLY:
                        bad.append((c.lineno, ast.unparse(c)))
        ck.require("%s: deserialises without pickle, eval or exec" % f, not bad, "%s:%s" % (f, bad[0][0] if bad else 0), "uses %s" % bad)


def SELF_():
    return S("self", Obj(BM))


# ---------------------------------------------------------------------------- memory maps
def c22(ck):
    runs = sweep(ck, {"load", "mmap", "memmap", "load_scores", "open_memmap"}, configs=({}, {"mmap": TRUE}, {"mmap": FALSE}))
    done = set()
    maps = 0
    for e, q in runs:
        for x in e.effects:
            if pc_of(x) is FALSE:
                continue
            if x.kind == "np.load":
                v = args_of(x, LOADARGS).get("mmap_mode", NONEV)
                for a in alts(v):
                    name = "%s (np.load from %s): mapped arrays are read-only" % (x.where, q)
                    if a.op == "const":
                        ck.require(name, a.a[0] in (None, "r"), x.where, "arrays are mapped with mode %s" % show(a))
                    elif a.op == "sym":
                        ck.add(name, OK, "", x.where)
                    else:
                        ck.add(name, UNDEC, show(a)[:200], x.where)
            elif x.kind == "mmap":
                maps += 1
                d = dict(x.d["kwargs"])
                acc = d.get("access")
                name = "%s (from %s): files are mapped read-only" % (x.where, q)
                if acc is not None and all(a.op in ("ext", "const") for a in alts(acc)):
                    bad = [a for a in alts(acc) if not (a.op == "ext" and a.a[0] == "mmap.ACCESS_READ" or tm.is_const(a, 1))]
                    ck.require(name, not bad, x.where, "the file is mapped with access %s" % [show(a) for a in bad])
                elif acc is None and "prot" in d:
                    ck.require(name, d["prot"].op == "ext" and d["prot"].a[0] == "mmap.PROT_READ", x.where, "the file is mapped with prot %s" % show(d["prot"]), closed=not opaque_ops(d["prot"]))
                elif acc is None and len(x.d["args"]) <= 2:
                    ck.require(name, False, x.where, "the file is mapped with the default access, which allows writing")
                else:
                    ck.add(name, UNDEC, "access not recognised", x.where)
            elif x.kind == "call" and x.d.get("name") in ("numpy.memmap", "numpy.lib.format.open_memmap"):
                mo = x.d["kwargs"].get("mode", x.d["args"][2] if len(x.d["args"]) > 2 else const("r+"))
                ck.require("%s (from %s): mapped arrays are read-only" % (x.where, q), tm.is_const(mo, "r"), x.where, "mapped with mode %s" % show(mo), closed=not opaque_ops(mo))
    # what each choice gives
    for mm in (True, False):
        for method in ("lucene", "bm25l"):
            def one():
                e = base.engine()
                bm_types(e, method=method)
                st = State({}, dict(e.base_heap))
                # the saved parameters: those of an index
                call(e, "bm25s", "BM25.load", [S("save_dir", STR)], {"mmap": const(mm), "load_corpus": TRUE}, st)
                ck.use(e)
                n = 0
                for x in e.effects:
                    if x.kind != "np.load" or pc_of(x) is FALSE:
                        continue
                    v = args_of(x, LOADARGS).get("mmap_mode", NONEV)
                    n += tm.is_const(v, "r")
                    if not mm:
                        ck.require("mmap=False: %s loads into memory" % x.where, tm.is_const(v, None), x.where, "mapped with mode %s" % show(v), closed=not opaque_ops(v))
                if mm:
                    ck.require("mmap=True: the three index arrays are mapped", n >= 3, "BM25.load_scores", "%d arrays are mapped" % n)
                else:
                    ck.require("mmap=False: no file is mapped", not any(x.kind == "mmap" and pc_of(x) is not FALSE for x in e.effects), "BM25.load", "a file is mapped")
                for x in e.effects:
                    if x.kind == "open" and pc_of(x) is not FALSE:
                        md = x.d["mode"]
                        ck.require("mmap=%s: loading opens %s for reading only" % (mm, x.where), md.op == "const" and not set("wax+") & set(md.a[0]) or only_index(x), x.where,
                                   "loading opens %s with mode %s" % (show(x.d["path"])[:100], show(md)), closed=not opaque_ops(md))
            ck.guard("c22 load", one)


def only_index(x):
    return ".mmindex.json" in show(x.d["path"])
