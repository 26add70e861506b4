"""Models of the builtins and libraries the repository uses, as value-graph constructors.

Everything that is not modelled here becomes an uninterpreted function of its arguments
(`call`/`meth` terms) together with a recorded effect.
"""
import ast
import re
from .terms import *  # noqa
from . import terms as tm


def _E():
    from . import engine
    return engine


INT_NAMES = {"int", "int32", "int64", "int16", "int8", "uint32", "uint64", "uint8", "uint16", "numpy.int32", "numpy.int64", "numpy.intp",
             "numpy.uint32", "numpy.uint64", "numpy.int_", "i4", "i8", "long", "numpy.int16", "numpy.int8", "numpy.uint8", "numpy.uint16"}
FLOAT_NAMES = {"float", "float32", "float64", "float16", "numpy.float32", "numpy.float64", "numpy.float16", "f4", "f8", "double"}
PURE_PREFIX = ("numpy.", "math.", "re.", "json.", "os.path.", "scipy.", "operator.", "itertools.", "collections.", "typing.", "time.",
               "logging.", "string.", "copy.", "statistics.", "unicodedata.", "os.cpu_count", "os.environ", "os.getenv", "functools.",
               "inspect.", "warnings.", "numba.", "jax.", "pathlib.", "sys.", "os.fspath", "bisect.", "urllib.parse", "hashlib.",
               "platform.", "resource.", "random.", "heapq.nlargest", "heapq.nsmallest", "heapq.merge")


LOSSY = [False]      # set where a float32 copy counts as different from the array copied
NARROW = ("int8", "int16", "uint8", "uint16", "float16")


def dtype_class(t):
    """'F' float-like / 'I' integer-like / 'B' bool / 'O' object / '?'"""
    if t is None or t is NONEV:
        return None
    if t.op == "phi":
        a, b = dtype_class(t.a[1]), dtype_class(t.a[2])
        return a if a == b else "?"
    if t.op in ("const", "ext", "builtin"):
        n = t.a[0]
        if isinstance(n, str) and n.rpartition(".")[2] in NARROW:
            return "N" + n.rpartition(".")[2]
        if LOSSY[0] and isinstance(n, str) and n.rpartition(".")[2] in ("float32", "f4", "<f4", "single", "int32", "i4", "<i4"):
            return "N" + n.rpartition(".")[2]
        if isinstance(n, str) and t.op == "const" and re.fullmatch(r"[<>=|]?[USa]\d+", n):
            return "N" + n
        if n in INT_NAMES:
            return "I"
        if n in FLOAT_NAMES:
            return "F"
        if n in ("bool", "numpy.bool_", "numpy.bool8"):
            return "B"
        if n in ("object", "numpy.object_", "O"):
            return "O"
        return "?"
    if t.op == "attr" and t.a[1] in ("int_dtype",):
        return "I"
    if t.op == "attr" and t.a[1] == "dtype":
        k = elem_kind(t.a[0])
        if k == "int":
            return "I"
        return "F"
    if t.op == "sym" and "int_dtype" in str(t.a[0]):
        return "I"
    if t.op == "sym" and "dtype" in str(t.a[0]):
        return "F"
    return "?"


def elem_kind(t):
    if t.op == "phi":
        ks = {elem_kind(t.a[1]), elem_kind(t.a[2])}
        return ks.pop() if len(ks) == 1 else None
    if t.ty is not None and t.ty.elem is not None:
        return t.ty.elem.kind
    if t.op in ("arr", "cast", "copy_list", "flip"):
        return elem_kind(t.a[0])
    if t.op in ("argsort", "argpart", "topk_idx", "offs"):
        return "int"
    if t.op == "gather":
        return elem_kind(t.a[0])
    if t.op == "slice":
        return elem_kind(t.a[0])
    if t.op == "concat_l":
        ks = {elem_kind(x) for x in t.a[0]}
        return ks.pop() if len(ks) == 1 else None
    if t.op == "flat":
        q = t.a[0]
        if q.op == "comp":
            return elem_kind(q.a[2])
        if q.op == "list":
            ks = {elem_kind(x) for x in q.a[0]}
            return ks.pop() if len(ks) == 1 else None
    return None


def unarr(t):
    while t.op == "arr":
        t = t.a[0]
    return t


def arr(seq, ek=None):
    """an array holding the elements of seq"""
    if seq.op == "phi":
        return ite(seq.a[0], arr(seq.a[1]), arr(seq.a[2]))
    if kind(seq) == "array":
        return seq
    e = seq.ty.elem if seq.ty is not None else None
    return mk("arr", seq, ty=Ty("array", e))


def cast(x, dc):
    if x.op == "phi":
        return ite(x.a[0], cast(x.a[1], dc), cast(x.a[2], dc))
    if dc in ("F", None, "?"):
        return x
    if dc.startswith("N"):
        # values are cut to the range of the type
        return mk("narrow", x, dc[1:], ty=Ty("array", None if "float" in dc or "int" not in dc else INT) if kind(x) in ("array", "list", None) else INT)
    ek = elem_kind(x)
    if dc == "I" and ek in ("int", None) and (ek == "int" or x.op in ("sym",)):
        return x
    if dc == "I" and kind(x) == "int":
        return x
    if x.op == "cast" and x.a[1] == dc:
        return x
    return mk("cast", x, dc, ty=Ty("array", INT if dc == "I" else (BOOL if dc == "B" else None)) if kind(x) in ("array", "list", None) else INT)


def seq_sum(eng, d, st, start=ZERO):
    if d.op == "phi":
        return ite(d.a[0], seq_sum(eng, d.a[1], st, start), seq_sum(eng, d.a[2], st, start))
    d0 = d
    if kind(d) == "array" and d.op not in ("comp", "arr", "list"):
        v = fresh()
        return add(start, sumc(length(d), TRUE, _E().elem_of(d, v), v))
    d = unarr(eng.to_seq(unarr(d), st))
    if d.op in ("list", "tuple"):
        r = start
        for x in d.a[0]:
            if kind(x) == "list" or kind(r) == "list":
                r = concat(r, eng.deref(x, st)) if kind(r) == "list" else eng.deref(x, st)
            else:
                r = add(r, x)
        return r
    N, g, e, v, lit = eng.iter_term(d, fresh(), st)
    if kind(start) == "list":
        return concat(start, flat(comp(N, g, eng.resolve(e, st), v)))
    return add(start, sumc(N, g, e, v))


def seq_mean(eng, d, st):
    s = seq_sum(eng, d, st)
    return div(s, length(unarr(d)))


def iter_any(eng, d, st, neg_):
    if d.op == "phi":
        return ite(d.a[0], iter_any(eng, d.a[1], st, neg_), iter_any(eng, d.a[2], st, neg_))
    N, g, e, v, lit = eng.iter_term(d, fresh(), st)
    f = (lambda x: lnot(truth(eng.deref(x, st)))) if neg_ else (lambda x: truth(eng.deref(x, st)))
    if lit is not None:
        r = FALSE
        for x in lit:
            r = lor(r, f(x))
        return r
    return anyc(N, land(g, f(e)), v)


def elementwise(d, v):
    """(length, truth of element v) of a one-dimensional array of truth values, or None"""
    if d.op == "arr":
        return elementwise(d.a[0], v)
    if d.op == "acmp":
        n, xs = None, []
        for x in d.a[1:]:
            u = unarr(x)
            if kind(x) == "array" or kind(u) in ("array", "list"):
                et = u.ty.elem if u.ty else None
                if et is None or et.kind not in ("int", "float", "str", "bool"):
                    return None
                if n is not None and n.key != length(u).key:
                    return None
                n = length(u)
                xs.append(index(u, v))
            elif kind(x) in ("int", "float", "str", "bool"):
                xs.append(x)
            else:
                return None
        return (n, tm.cmp(d.a[0], *xs)) if n is not None else None
    if d.op == "invert":
        r = elementwise(d.a[0], v)
        return r and (r[0], lnot(r[1]))
    if d.op == "binop" and d.a[0] in ("BitOr", "BitAnd"):
        a, b = elementwise(d.a[1], v), elementwise(d.a[2], v)
        if a is None or b is None or a[0].key != b[0].key:
            return None
        return a[0], (lor if d.a[0] == "BitOr" else land)(a[1], b[1])
    return None


def array_any(d, neg_):
    v = fresh()
    r = elementwise(d, v)
    if r is None:
        return None
    return lnot(anyc(r[0], lnot(r[1]), v)) if neg_ else anyc(r[0], r[1], v)


def isinst(eng, x, cls, st, content=False):
    if cls.op == "tuple":
        r = FALSE
        for c in cls.a[0]:
            r = lor(r, isinst(eng, x, c, st, content))
        return r
    if cls.op == "phi":
        return ite(cls.a[0], isinst(eng, x, cls.a[1], st, content), isinst(eng, x, cls.a[2], st, content))
    if x.op == "phi":
        return ite(x.a[0], isinst(eng, x.a[1], cls, st, content), isinst(eng, x.a[2], cls, st, content))
    d = eng.deref(x, st) if not content or x.op == "loc" else x
    if d.op == "phi":
        return ite(d.a[0], isinst(eng, d.a[1], cls, st, True), isinst(eng, d.a[2], cls, st, True))
    n = cls.a[0] if cls.a else "?"
    n = str(n)
    short = n.rsplit(".", 1)[-1]
    k = eng.obj_class(x, st)
    if k is not None:
        if cls.op == "class":
            todo = [k]
            while todo:
                c = todo.pop()
                if not isinstance(c, str):
                    if c.qual == n:
                        return TRUE
                    todo.extend(c.bases)
            return FALSE
        if short in ("tuple", "Iterable", "Sequence") and k.is_nt:
            return TRUE
        if short in ("Iterable", "Sized", "Collection"):
            return TRUE if eng.find_method(k, "__iter__")[0] is not None or eng.find_method(k, "__getitem__")[0] is not None and short != "Iterable" else FALSE
        for b in k.bases:
            if isinstance(b, str) and b.rsplit(".", 1)[-1] == short:
                return TRUE
        return FALSE
    kd = d.ty.kind if d.ty is not None else None
    if kd is None:
        return mk("isinst", d, n, ty=BOOL)
    table = {
        "list": {"list", "Iterable", "Sequence", "Sized", "Collection", "MutableSequence", "object"},
        "tuple": {"tuple", "Iterable", "Sequence", "Sized", "Collection", "object"},
        "dict": {"dict", "Iterable", "Mapping", "Sized", "Collection", "MutableMapping", "object"},
        "set": {"set", "Iterable", "Sized", "Collection", "Set", "frozenset", "object"},
        "str": {"str", "Iterable", "Sequence", "Sized", "Collection", "object", "Hashable"},
        "bytes": {"bytes", "Iterable", "Sequence", "Sized", "object", "Hashable"},
        "int": {"int", "Integral", "Number", "object", "Hashable", "Real"},
        "bool": {"bool", "int", "Integral", "Number", "object", "Hashable", "Real"},
        "float": {"float", "Number", "Real", "object", "Hashable"},
        "array": {"ndarray", "Iterable", "Sized", "Collection", "object"},
        "func": {"Callable", "object", "FunctionType", "Hashable"},
        "path": {"Path", "PurePath", "PathLike", "object"},
        "none": {"object", "NoneType", "Hashable"}, "file": {"object", "Iterable", "IOBase", "TextIOBase"}, "module": {"object"},
        "obj": {"object"}, "slice": {"slice", "object"}, "mmap": {"mmap", "object"},
    }
    if kd not in table:
        return mk("isinst", d, n, ty=BOOL)
    return TRUE if short in table[kd] else FALSE


def has_attr(eng, x, name, st):
    if x.op == "phi":
        return ite(x.a[0], has_attr(eng, x.a[1], name, st), has_attr(eng, x.a[2], name, st))
    nm = name.a[0] if name.op == "const" else None
    if nm is None:
        return mk("hasattr", x, name, ty=BOOL)
    if ("f", x.id, nm) in st.heap:
        return TRUE
    k = eng.obj_class(x, st)
    if k is not None:
        if eng.find_method(k, nm)[0] is not None or (k.qual, nm) in eng.attr_types or (k.qual, nm) in eng.attr_vals or any(f == nm for f, _ in k.fields):
            return TRUE
        if x.op == "loc" or k.is_nt:
            return FALSE
        return mk("hasattr", x, nm, ty=BOOL)
    d = eng.deref(x, st)
    kd = kind(d)
    if kd in ("list", "tuple", "dict", "set", "str", "int", "float", "bool", "none", "bytes", "func"):
        py = {"list": list, "tuple": tuple, "dict": dict, "set": set, "str": str, "int": int, "float": float, "bool": bool,
              "none": type(None), "bytes": bytes, "func": type(lambda: 0)}[kd]
        return TRUE if hasattr(py, nm) else FALSE
    if x.op == "module" and eng.is_internal(x.a[0]):
        return TRUE if nm in eng.get_module(x.a[0]).env else FALSE
    if kd == "array" and nm in ("ids", "vocab"):
        return FALSE
    return mk("hasattr", d, nm, ty=BOOL)


def map_over(eng, fn, its, st, node, parallel=False):
    E = _E()
    acc = eng.alloc(st, tlist([]))
    it = its[0] if len(its) == 1 else mk("zipn", tuple(eng.deref(x, st) for x in its))
    name = "__map%d" % eng.loc_n
    fr = E.Frame(None, eng.cur_mod)
    tgt = ast.copy_location(ast.Name(id=name, ctx=ast.Store()), node) if node is not None else ast.Name(id=name, ctx=ast.Store(), lineno=0, col_offset=0)

    def body(s, f):
        x = s.env[name]
        a = [x] if len(its) == 1 else list(x.a[0])
        if parallel:
            eng.par += 1
        try:
            v = eng.call(fn, a, {}, s, node)
        finally:
            if parallel:
                eng.par -= 1
        eng.set_content(acc, concat(eng.deref(acc, s), tlist([v])), s)
        return s
    eng.loop_c(it, tgt, body, st, fr, tgt)
    return acc


def scalar_or_arr(x, eng, st):
    d = eng.resolve(x, st)
    return d


def range_(args):
    if len(args) == 1:
        return mk("range", ZERO, args[0], ty=Ty("list", NAT))
    if len(args) == 3 and all(a.op == "sidx" and a.a[0] is args[0].a[0] and a.a[1].key == args[0].a[1].key and is_const(a.a[2], j) for j, a in enumerate(args)):
        return tm.srange(args[0].a[0], args[0].a[1])
    lo, hi = args[0], args[1]
    if len(args) == 2 or is_const(args[2], 1):
        return mk("range", lo, hi, ty=Ty("list", NAT if lo.ty is NAT else INT))
    return mk("rangestep", lo, hi, args[2], ty=Ty("list", INT))


def zeros_(eng, st, name, args, kw):
    n = args[0] if args else kw.get("shape", NONEV)
    n = eng.resolve(n, st)
    if n.op == "tuple" and len(n.a[0]) == 1:
        n = n.a[0][0]
    dt = args[1] if len(args) > 1 and name != "full" else kw.get("dtype")
    dc = dtype_class(eng.resolve(dt, st)) if dt is not None else "F"
    ty = Ty("array", {"I": INT, "B": BOOL}.get(dc) or (INT if dc and dc[0] == "N" and "int" in dc else None))
    if name == "full":
        v = args[1] if len(args) > 1 else kw.get("fill_value", ZERO)
        if is_zero(v):
            return mk("zeros", n, dc or "F", ty=ty)
        return mk("full", n, v, ty=ty)
    if dc == "?":
        dc = "F"
    return mk({"zeros": "zeros", "empty": "empty_arr", "ones": "ones"}[name], n, dc or "F", ty=ty)


def csc_of(eng, args, kw, st):
    a = eng.resolve(args[0], st)
    shape = eng.resolve(kw.get("shape", args[1] if len(args) > 1 else NONEV), st)
    if a.op == "tuple" and len(a.a[0]) == 2 and a.a[0][1].op == "tuple" and len(a.a[0][1].a[0]) == 2:
        data, (row, col) = a.a[0][0], a.a[0][1].a[0]
        return mk("csc", unarr(data), unarr(row), unarr(col), shape, ty=Ty("sparse"))
    return None


def call_generic(eng, name, f, args, kwargs, st, pure=False, ty=None):
    ra = [eng.resolve(a, st) for a in args]
    kw = tuple(sorted(((const(k), eng.resolve(v, st)) for k, v in kwargs.items()), key=lambda p: p[0].a[0]))
    if not pure:
        eng.effect("call", {"name": name, "args": ra, "kwargs": {k.a[0]: v for k, v in kw}, "refs": list(args) + list(kwargs.values())}, st)
    return mk("call", f, *ra, kw, ty=ty)


def fwrite(eng, f, content, st, how="write"):
    eng.effect("write", {"file": f, "content": content, "how": how}, st)


def file_of(eng, p, mode, enc, st, extra=None):
    p = _E().path(eng.resolve(p, st))
    f = mk("file", p, mode, enc, ty=FILE)
    eng.effect("open", {"path": p, "mode": mode, "encoding": enc, "file": f, "extra": extra or {}}, st)
    st.heap[("cur", f.id)] = ZERO       # number of lines read
    return f


def content_of(eng, x, st):
    """to_seq with array wrapper removed"""
    return unarr(eng.to_seq(unarr(eng.resolve(x, st)), st))


def as_arr_value(eng, x, st):
    d = eng.resolve(x, st)
    return d


def ext_call0(eng, f, args, kwargs, st, node):
    n = f.a[0]
    E = _E()
    R = lambda i: eng.resolve(args[i], st)
    D = lambda i: eng.deref(args[i], st)
    if f.op == "builtin":
        r = builtin(eng, n, f, args, kwargs, st, node)
        return r
    s = n.rsplit(".", 1)[-1]
    # ---- logging, warnings
    if n.startswith("logging.") or n.startswith("warnings."):
        if s == "getLogger":
            return mk("ext", "logging.Logger")
        return NONEV
    if n in ("tqdm.auto.tqdm", "tqdm.tqdm", "tqdm.notebook.tqdm", "tqdm.std.tqdm", "tqdm.auto.trange"):
        if args:
            return args[0]
        if "iterable" in kwargs:
            return kwargs["iterable"]
        # (its attributes depend on whether it is shown)
        return mk("ext", "logging.silent" if kwargs.get("disable") is TRUE else "logging.progress")
    if n == "functools.partial":
        return mk("partial", args[0], tuple(args[1:]), tuple(sorted(((const(k), v) for k, v in kwargs.items()), key=lambda p: p[0].a[0])))
    if n == "functools.reduce" and len(args) >= 2 and args[0].op == "ext" and args[0].a[0] in ("operator.add", "operator.concat"):
        return seq_sum(eng, D(1), st, args[2] if len(args) > 2 else ZERO)
    if n in ("functools.wraps",):
        return mk("call", f, *args)
    if n.startswith("numba."):
        if args and args[0].op in ("func", "bound", "partial", "phi") and s in ("njit", "jit", "vectorize"):
            return args[0]
        if s == "prange":
            return range_([eng.resolve(a, st) for a in args])
        if s in ("njit", "jit"):
            return mk("call", f, ())
        if s == "get_num_threads":
            eng.effect("nthreads_get", {}, st)
            g = st.heap.get(("g", "numba", "threads"))
            return g if g is not None else mk("nthreads", mk("sym", "numba_threads", ty=NAT), ty=NAT)
        if s == "set_num_threads":
            eng.effect("nthreads_set", {"value": args[0]}, st)
            st.heap[("g", "numba", "threads")] = args[0]
            return NONEV
        return call_generic(eng, n, f, args, kwargs, st, pure=True)
    # ---- numpy
    if n.startswith("numpy."):
        r = numpy_call(eng, n[6:], f, args, kwargs, st, node)
        if r is not None:
            return r
        return call_generic(eng, n, f, args, kwargs, st, pure=True, ty=ARRAY if n.count(".") == 1 else None)
    if n.startswith("math."):
        x = R(0) if args else NONEV
        if s in ("log", "log2", "log10"):
            eng.effect("mathlog", {"arg": x}, st)
        if s == "log":
            if len(args) == 2:
                return div(log(x), log(R(1)))
            return log(x)
        if s == "log1p":
            return log(add(x, ONE))
        if s in ("log2", "log10"):
            return div(log(x), mk("log", const(2 if s == "log2" else 10)))
        if s == "pow" and numval(R(1)) is not None and numval(R(1)).denominator == 1:
            return power(x, int(numval(R(1))))
        if s in ("sqrt", "exp", "floor", "ceil", "fsum"):
            if s == "fsum":
                return seq_sum(eng, D(0), st)
            return mk(s, x, ty=INT if s in ("floor", "ceil") else FLOAT)
        return call_generic(eng, n, f, args, kwargs, st, pure=True, ty=FLOAT)
    if n.startswith("operator."):
        op = {"add": add, "sub": sub, "mul": mul, "truediv": div}.get(s)
        if op and len(args) == 2:
            return op(R(0), R(1))
        if s == "itemgetter" and len(args) == 1:
            return mk("itemgetter", args[0], ty=FUNC)
    # ---- collections
    if n == "collections.Counter":
        if not args:
            return eng.alloc(st, mk("dict", (), ty=DICT))
        return eng.alloc(st, E.counter(content_of(eng, args[0], st)))
    if n in ("collections.OrderedDict",):
        return builtin(eng, "dict", mk("builtin", "dict"), args, kwargs, st, node)
    if n == "collections.defaultdict":
        fac = args[0] if args else NONEV
        return eng.alloc(st, mk("ddict", fac, ty=DICT))
    if n == "collections.deque":
        return eng.alloc(st, eng.to_seq(D(0), st) if args else tlist([]))
    if n == "copy.copy" or n == "copy.deepcopy":
        d = D(0)
        if s == "deepcopy" and d.op == "sym":
            eng.deepcopied.add(d.key)
        if kind(d) in ("list", "dict", "set", "array"):
            return eng.alloc(st, d if s == "copy" else eng.resolve(d, st))
        return mk("copyof", d, ty=d.ty)
    if n == "itertools.chain" or n == "itertools.chain.from_iterable":
        if n.endswith("from_iterable") or (len(args) == 1 and args[0].op == "starred"):
            q = args[0].a[0] if args[0].op == "starred" else args[0]
            return eng.alloc(st, flat(eng.resolve(eng.to_seq(eng.resolve(q, st), st), st)))
        r = tlist([])
        for i in range(len(args)):
            r = concat(r, eng.to_seq(D(i), st))
        return eng.alloc(st, r)
    if n == "itertools.islice":
        if len(args) == 2:
            return eng.alloc(st, slice_(eng.to_seq(D(0), st), NONEV, R(1)))
        return eng.alloc(st, slice_(eng.to_seq(D(0), st), R(1), R(2), R(3) if len(args) > 3 else NONEV))
    if n == "itertools.repeat" and len(args) == 2:
        return comp(R(1), TRUE, args[0], fresh())
    if n == "itertools.count":
        return mk("count", R(0) if args else ZERO, ty=Ty("list", NAT))
    if n == "itertools.accumulate" and len(args) == 1 and not kwargs:
        return cumsum(eng, args[0], st)
    # ---- scipy
    if n.startswith("scipy.sparse."):
        if s in ("csc_matrix", "csc_array", "coo_matrix", "coo_array", "csr_matrix", "csr_array"):
            c = csc_of(eng, args, kwargs, st)
            if c is not None:
                if s.startswith("csc"):
                    return c
                return mk("spm", s[:3], c, ty=Ty("sparse"))
            a = eng.resolve(args[0], st) if args else NONEV
            if a.op == "spm" and s.startswith("csc"):
                return a.a[1]
            if a.op == "csc" and s.startswith("csc"):
                return a
        return call_generic(eng, n, f, args, kwargs, st, pure=True)
    # ---- futures
    if n in ("concurrent.futures.ThreadPoolExecutor", "concurrent.futures.ProcessPoolExecutor",
             "concurrent.futures.thread.ThreadPoolExecutor", "multiprocessing.pool.ThreadPool", "multiprocessing.Pool"):
        eng.effect("executor", {"name": n, "args": args, "kwargs": kwargs}, st)
        return mk("executor", s, ty=Ty("executor"))
    if n == "concurrent.futures.as_completed":
        return mk("unordered", eng.to_seq(D(0), st), ty=LIST)
    if n == "concurrent.futures.wait":
        return mk("unordered", eng.to_seq(D(0), st), ty=LIST)
    # ---- os / files
    r = os_call(eng, n, s, f, args, kwargs, st, node)
    if r is not None:
        return r
    # ---- json
    if n in ("json.dumps", "ujson.dumps"):
        return mk("jdumps", R(0), tuple(sorted(((const(k), eng.resolve(v, st)) for k, v in kwargs.items() if k not in ("separators", "sort_keys")), key=lambda p: p[0].a[0])), ty=STR)
    if n in ("json.loads", "orjson.loads", "ujson.loads"):
        x = R(0)
        return jloads(eng, x, st)
    if n == "orjson.dumps":
        return mk("odumps", R(0), R(1) if len(args) > 1 else NONEV, eng.resolve(kwargs.get("option", NONEV), st), ty=BYTES)
    if n == "json.dump":
        fwrite(eng, args[1] if len(args) > 1 else kwargs.get("fp"), mk("jdumps", R(0), tuple(sorted(((const(k), eng.resolve(v, st)) for k, v in kwargs.items() if k not in ("separators", "sort_keys", "fp")), key=lambda p: p[0].a[0])), ty=STR), st)
        return NONEV
    if n == "json.load":
        return jloads(eng, fread(eng, args[0], st), st)
    if n.startswith("re."):
        if s == "compile":
            return mk("recompile", *[eng.resolve(a, st) for a in args], ty=Ty("regex"))
        if s == "escape":
            return mk("call", f, R(0), ty=STR)
        flags = tuple(sorted(((const(k), v) for k, v in kwargs.items()), key=lambda p: p[0].a[0]))
        rx = mk("recompile", R(0), *[v for k, v in flags], ty=Ty("regex"))
        return method(eng, rx, s, args[1:], {}, st, node)
    if n == "mmap.mmap":
        fl = args[0] if args else kwargs.get("fileno", NONEV)
        m = mk("mmapobj", R(0) if args else eng.resolve(fl, st), ty=Ty("mmap"))
        eng.effect("mmap", {"ref": m, "kwargs": {k: eng.resolve(v, st) for k, v in kwargs.items()}, "args": [eng.resolve(a, st) for a in args]}, st)
        return m
    if n in ("io.open", "codecs.open"):
        mode = args[1] if len(args) > 1 else kwargs.get("mode", const("r"))
        ep = 3 if n == "io.open" else 2
        enc = kwargs.get("encoding", args[ep] if len(args) > ep else NONEV)
        return file_of(eng, args[0], eng.resolve(mode, st), eng.resolve(enc, st), st)
    if n == "time.perf_counter" or n == "time.time" or n == "time.monotonic":
        eng.clock = getattr(eng, "clock", 0) + 1
        eng.effect("clock", {"name": n}, st)
        return mk("clock", eng.clock, ty=FLOAT)
    if n in ("contextlib.suppress",):
        return mk("suppress", tuple(str(a.a[0]).rsplit(".", 1)[-1] for a in args))
    if n in ("contextlib.closing",):
        return mk("closing", args[0])
    if n in ("contextlib.nullcontext",):
        return mk("closing", args[0] if args else NONEV)
    if n.startswith("typing."):
        return args[-1] if s == "cast" else mk("ext", n)
    if n == "object.__init__" or n.startswith("object."):
        return NONEV
    pure = any(n.startswith(p) for p in PURE_PREFIX)
    return call_generic(eng, n, f, args, kwargs, st, pure=pure)


def jloads(eng, x, st):
    if x.op == "phi":
        return ite(x.a[0], jloads(eng, x.a[1], st), jloads(eng, x.a[2], st))
    y = x
    if y.op == "cat" and eng.fs is not None:
        # white space around the document
        ps = [z for z in y.a[0] if not (z.op == "const" and isinstance(z.a[0], str) and not z.a[0].strip())]
        if len(ps) == 1:
            y = ps[0]
    if y.op == "odecode":
        y = y.a[0]
    if y.op == "meth" and len(y.a) > 1 and y.a[1] == "decode" and y.a[0].op == "odumps":
        y = y.a[0]
    if y.op in ("jdumps", "odumps") and eng.fs is not None:
        return json_value(eng, y.a[0], st)
    return mk("jloads", x)


def json_value(eng, v, st):
    """what json.loads(json.dumps(v)) gives: fresh containers, tuples become lists (keys are strings)"""
    if v.op == "dict":
        return eng.alloc(st, mk("dict", tuple((k if k.ty is tm.STR or k.op == "const" and isinstance(k.a[0], str) else mk("strof", k, ty=STR), json_value(eng, x, st)) for k, x in v.a[0]), ty=v.ty))
    if v.op in ("list", "tuple"):
        return eng.alloc(st, tm.tlist([json_value(eng, x, st) for x in v.a[0]]))
    if v.op == "phi":
        return ite(v.a[0], json_value(eng, v.a[1], st), json_value(eng, v.a[2], st))
    return v


def fread(eng, f, st):
    if f.op == "phi":
        return ite(f.a[0], fread(eng, f.a[1], st), fread(eng, f.a[2], st))
    eng.effect("read", {"file": f}, st)
    st.heap[("cur", f.id)] = mk("unk", "position", ty=NAT)
    if f.op == "file" and eng.fs is not None and f.a[0].key in eng.fs:
        return eng.fs[f.a[0].key]
    if f.op == "file":
        return mk("fread", f.a[0], ty=STR if "b" not in str(f.a[1].a[0] if isinstance(f.a[1], T) and f.a[1].op == "const" else "") else BYTES)
    return mk("fread", f, ty=STR)


def cumsum(eng, x, st):
    q = unarr(content_of(eng, x, st))
    if q.op == "phi":
        return ite(q.a[0], cumsum(eng, q.a[1], st), cumsum(eng, q.a[2], st))
    e = NAT if elem_kind(q) == "int" else None
    if q.op == "list" and 0 < len(q.a[0]) <= 6:
        xs = []
        for y in q.a[0]:
            xs.append(add(xs[-1], y) if xs else y)
        return eng.alloc(st, mk("arr", tlist(xs), ty=Ty("array", e)))
    if q.op == "concat_l" and q.a[0][0].op == "list" and len(q.a[0][0].a[0]) == 1 and is_zero(q.a[0][0].a[0][0]):
        rest = tlist([])
        for y in q.a[0][1:]:
            rest = concat(rest, y)
        return eng.alloc(st, mk("offs", rest, ty=Ty("array", e)))
    return eng.alloc(st, slice_(mk("offs", q, ty=Ty("array", e)), ONE, NONEV))


# parameters understood per function: "name" (modelled), "name*" (irrelevant for the value), "name=a|b" (only these constants)
NP_SIG = {
    "zeros": "shape dtype order*", "empty": "shape dtype order*", "ones": "shape dtype order*", "full": "shape fill_value dtype order*",
    "zeros_like": "a dtype", "empty_like": "a dtype", "ones_like": "a dtype",
    "array": "object dtype copy* order* ndmin=0", "asarray": "a dtype order*", "asanyarray": "a dtype order*", "ascontiguousarray": "a dtype",
    "fromiter": "iter dtype count*", "concatenate": "arrays axis=0 dtype*", "concat": "arrays axis=0 dtype*", "hstack": "tup dtype*",
    "vstack": "tup dtype*", "row_stack": "tup dtype*", "stack": "arrays axis=0 dtype*", "append": "arr values axis=None|0",
    "cumsum": "a axis=None|0 dtype*", "add.at": "a indices b", "subtract.at": "a indices b", "maximum.at": "a indices b", "minimum.at": "a indices b", "multiply.at": "a indices b", "divide.at": "a indices b", "bincount": "x weights minlength",
    "dtype": "dtype", "argsort": "a axis=-1|0|None kind stable", "argpartition": "a kth axis=-1|0|None", "take": "a indices axis=None|0|-1 mode=raise",
    "take_along_axis": "arr indices axis*", "flip": "m axis=None|0|-1", "flipud": "m", "log": "x dtype*", "log1p": "x dtype*",
    "maximum": "a b dtype*", "fmax": "a b dtype*", "minimum": "a b dtype*", "fmin": "a b dtype*",
    "add": "a b out dtype*", "subtract": "a b out dtype*", "multiply": "a b out dtype*", "divide": "a b out dtype*", "true_divide": "a b out dtype*",
    "mean": "a axis=None|0 dtype*", "sum": "a axis=None dtype* initial=0", "max": "a axis=None|0 initial", "amax": "a axis=None|0 initial", "min": "a axis=None|0 initial",
    "amin": "a axis=None|0 initial", "unique": "ar return_counts", "sort": "a axis=-1", "arange": "start stop dtype*", "where": "c x y", "clip": "a a_min a_max",
    "float32": "x", "float64": "x", "float16": "x", "int32": "x", "int64": "x", "intp": "x", "copy": "a order*", "ravel": "a order=C",
    "count_nonzero": "a", "reshape": "a shape order=C",
}
ARR_SIG = {
    "sum": "axis=None dtype* initial=0", "mean": "axis=None|0 dtype*", "max": "axis=None|0 initial", "min": "axis=None|0 initial", "flatten": "order=C", "ravel": "order=C", "reshape": None, "tolist": "", "astype": "dtype copy order* casting* subok*",
    "take": "indices axis=None|0|-1 mode=raise", "copy": "order*", "argsort": "axis=-1|0|None kind stable", "argpartition": "kth axis=-1|0|None",
    "cumsum": "axis=None|0 dtype*", "sort": None, "fill": "value", "partition": None, "resize": None, "setflags": None, "put": None, "itemset": None,
    "item": None, "tocsc": None, "view": "",
}
LIST_SIG = {"sort": "key! reverse", "append": "x", "extend": "x", "pop": "i"}
NEEDS_SIZE = {"len", "enumerate", "sum", "sorted", "reversed", "list", "tuple", "set", "frozenset", "any", "all", "max", "min"}
BUILTIN_SIG = {"len": "x", "enumerate": "iterable start", "sum": "iterable start", "sorted": "iterable key reverse", "zip": None, "map": None, "filter": "f it", "range": None,
               "any": "x", "all": "x", "abs": "x", "list": "x", "tuple": "x", "set": "x", "frozenset": "x", "reversed": "x"}


def gate(sig, args, kw, eng, st):
    """args and keyword arguments in the form the models expect, or None when one is not modelled"""
    if sig is None:
        return args, kw
    names = []
    for w in sig.split():
        if "=" in w:
            a, b = w.split("=")
            names.append((a, b.split("|")))
        else:
            names.append((w.rstrip("*!"), w[-1] if w[-1] in "*!" else ""))
    if len(args) > len(names):
        return None
    known = dict(names)
    if any(k not in known for k in kw):
        return None
    vals = [(names[i][0], a) for i, a in enumerate(args)] + list(kw.items())
    for k, v in vals:
        if isinstance(known[k], list):
            v = eng.resolve(v, st)
            if v.op != "const" or str(v.a[0]) not in known[k]:
                return None
    na = [a for i, a in enumerate(args) if known[names[i][0]] in ("", "!")]
    nk = {k: v for k, v in kw.items() if known[k] in ("", "!")}
    if len(na) != len(args):
        # parameters left out may shift later positional ones: keep by name
        keep = [(names[i][0], a) for i, a in enumerate(args) if known[names[i][0]] == ""]
        n0 = 0
        while n0 < len(keep) and keep[n0][0] == names[n0][0]:
            n0 += 1
        na = [a for _, a in keep[:n0]]
        nk.update({k: a for k, a in keep[n0:]})
    # leading parameters given by keyword become positional
    order = [a for a, b in names if b in ("", "!")]
    na = list(na)
    while len(na) < len(order) and order[len(na)] in nk and order[len(na)] in ("a", "x", "arr", "ar", "object", "arrays", "tup", "m", "iterable", "indices", "values", "b", "c", "y", "a_min", "a_max", "kth"):
        na.append(nk.pop(order[len(na)]))
    return na, nk


INPLACE_NP = {"nan_to_num", "put", "place", "copyto", "putmask", "fill_diagonal", "random.shuffle"}


UFUNC2 = {"add", "subtract", "multiply", "divide", "true_divide", "maximum", "minimum", "fmax", "fmin", "power", "floor_divide", "mod"}
UFUNC1 = {"log", "log1p", "exp", "sqrt", "abs", "absolute", "negative", "square", "log2", "log10"}


def numpy_call(eng, n, f, args, kw, st, node):
    out = kw.get("out")
    if out is None and (len(args) == 3 and n in UFUNC2 or len(args) == 2 and n in UFUNC1):
        out, args = args[-1], args[:-1]
    if out is None or is_const(out, None) or n.split(".")[-1] in INPLACE_NP:
        return numpy_call0(eng, n, f, args, {k_: v_ for k_, v_ in kw.items() if k_ != "out"} if out is not None else kw, st, node)
    out = out.a[0][0] if out.op == "tuple" and len(out.a[0]) == 1 else out
    r = numpy_call0(eng, n, f, args, {k_: v_ for k_, v_ in kw.items() if k_ != "out"}, st, node)
    v = eng.resolve(r, st) if r is not None else unk("np." + n, *[eng.resolve(a, st) for a in args])
    if elem_kind(eng.resolve(out, st)) == "int" and elem_kind(v) != "int":
        v = unk("np.%s-into-integers" % n, v)
    eng.store_through(out, v, st)
    return out


def numpy_call0(eng, n, f, args, kw, st, node):
    E = _E()
    R = lambda i: eng.resolve(args[i], st)
    D = lambda i: eng.deref(args[i], st)

    def new(v):
        return eng.alloc(st, v)
    kw0 = kw
    if n in NP_SIG:
        ga = gate(NP_SIG[n], args, kw, eng, st)
        if ga is None:
            return None
        args, kw = ga
    elif n.endswith(".at") or (n in INPLACE_NP and not (n == "nan_to_num" and is_const(eng.resolve(kw.get("copy", TRUE), st), True))):
        if args and n not in ("copyto", "fill_diagonal", "put", "place", "putmask"):
            eng.mutate(args[0], n, st)
            eng.set_content(args[0], unk("np." + n, eng.deref(args[0], st)), st)
            return args[0] if n == "nan_to_num" else NONEV
    if n == "count_nonzero":
        q = content_of(eng, args[0], st)
        v = fresh()
        x = E.elem_of(q, v)
        return sumc(length(q), tm.lnot(tm.eq(x, ZERO)), ONE, v)
    if n in ("zeros", "empty", "ones", "full"):
        return new(zeros_(eng, st, n, args, kw))
    if n in ("zeros_like", "empty_like", "ones_like"):
        x = R(0)
        dc = dtype_class(eng.resolve(kw["dtype"], st)) if "dtype" in kw else ("I" if elem_kind(x) == "int" else "F")
        return new(mk({"zeros_like": "zeros", "empty_like": "empty_arr", "ones_like": "ones"}[n], length(x), dc, ty=Ty("array", INT if dc == "I" else None)))
    if n in ("array", "asarray", "ascontiguousarray", "asanyarray", "fromiter"):
        d = R(0)
        dt = args[1] if len(args) > 1 else kw.get("dtype")
        dc = dtype_class(eng.resolve(dt, st)) if dt is not None else None
        eng.effect("nparray", {"seq": d, "dtype": eng.resolve(dt, st) if dt is not None else None, "dc": dc}, st)
        if d.op == "phi":
            v = ite(d.a[0], arr_like(eng, d.a[1], st), arr_like(eng, d.a[2], st))
        else:
            v = arr_like(eng, d, st)
        v = cast(v, dc)
        if n in ("asarray", "asanyarray", "ascontiguousarray") or (n == "array" and not is_const(eng.resolve(kw0.get("copy", TRUE), st), True)):
            if kind(d) == "array" or kind(d) is None:
                if v is d and args[0].op != "loc":
                    return args[0]       # may alias
                return eng.alloc_view(st, v, args[0])
        return new(v)
    if n in ("concatenate", "hstack", "concat"):
        d = R(0)
        q = eng.to_seq(d, st)
        if q.op in ("list",):
            q = tlist([unarr(eng.to_seq(unarr(eng.resolve(x, st)), st)) for x in q.a[0]])
            r = tlist([])
            for x in q.a[0]:
                r = concat(r, x)
            # [0] + cumsum
            if r.op == "concat_l" and len(r.a[0]) == 2 and r.a[0][0].op == "list" and len(r.a[0][0].a[0]) == 1 and is_zero(r.a[0][0].a[0][0]):
                y = r.a[0][1]
                if y.op == "slice" and y.a[0].op == "offs" and is_const(y.a[1], 1) and is_const(y.a[2], None):
                    return new(y.a[0])
            return new(arr(r))
        q = strip_arr_body(q)
        return new(mk("arr", flat(q), ty=ARRAY))
    if n in ("vstack", "stack", "row_stack"):
        return new(mk("arr", eng.to_seq(R(0), st), ty=ARRAY))
    if n == "append":
        return new(mk("arr", concat(unarr(R(0)), seq1(eng, R(1), st)), ty=Ty("array", R(0).ty.elem if R(0).ty else None)))
    if n == "cumsum":
        return cumsum(eng, args[0], st)
    if n in ("maximum.at", "minimum.at", "multiply.at", "divide.at"):
        idx, v = unarr(R(1)), unarr(R(2))
        eng.mutate(args[0], n, st, index=R(1), value=v)
        eng.set_content(args[0], mk("ufat", n, eng.deref(args[0], st), idx, v, ty=ARRAY), st)
        return NONEV
    if n in ("add.at", "subtract.at"):
        a = args[0]
        v = unarr(R(2))
        if n.startswith("sub"):
            v = neg(v)
        idx = R(1)
        eng.mutate(a, "add.at", st, index=idx, value=v)
        eng.set_content(a, E.sadd(eng.deref(a, st), unarr(idx), v), st)
        return NONEV
    if n == "bincount":
        w = kw.get("weights", args[1] if len(args) > 1 else None)
        ml = kw.get("minlength", args[2] if len(args) > 2 else None)
        if ml is not None:
            return new(E.sadd(mk("zeros", eng.resolve(ml, st), "F", ty=ARRAY), unarr(R(0)), unarr(eng.resolve(w, st)) if w is not None else ONE))
        return None
    if n in ("dtype",):
        return R(0)
    if n in ("argsort",):
        return new(argsort_(R(0), args[1:], kw, eng, st))
    if n in ("argpartition",):
        return new(mk("argpart", R(0), eng.resolve(kw.get("kth", args[1] if len(args) > 1 else NONEV), st), ty=Ty("array", NAT)))
    if n == "take":
        return new(index(R(0), R(1)))
    if n == "take_along_axis":
        ax = kw.get("axis", args[2] if len(args) > 2 else None)
        return new(gather(R(0), R(1)))
    if n == "flip" or n == "flipud":
        return new(flip(R(0)))
    if n == "log":
        return narr(eng, st, log(R(0)))
    if n == "log1p":
        return narr(eng, st, log(add(R(0), ONE)))
    if n in ("maximum", "fmax"):
        return narr(eng, st, minmax("max", [R(0), R(1)]))
    if n in ("minimum", "fmin"):
        return narr(eng, st, minmax("min", [R(0), R(1)]))
    if n in ("add", "subtract", "multiply", "divide", "true_divide"):
        op = {"add": add, "subtract": sub, "multiply": mul, "divide": div, "true_divide": div}[n]
        v = op(R(0), R(1))
        return narr(eng, st, v)
    if n == "mean":
        return seq_mean(eng, content_or_arr(eng, args[0], st), st)
    if n == "sum":
        if kw.get("axis") is not None or len(args) > 1:
            return None
        return seq_sum(eng, content_or_arr(eng, args[0], st), st)
    if n in ("max", "amax", "min", "amin"):
        return mk("maxof" if "max" in n else "minof", unarr(R(0)), eng.resolve(kw.get("initial", NONEV), st), NONEV, ty=elem_ty(R(0)))
    if n in ("any", "all") and len(args) == 1 and not kw:
        r = array_any(R(0), n == "all")
        if r is not None:
            return r
    if n == "unique":
        q = content_of(eng, args[0], st)
        c = E.counter(q)
        ks = arr(mk("keys", c, ty=Ty("list", q.ty.elem if q.ty else None)))
        if is_const(kw.get("return_counts", FALSE), True):
            return ttuple([new(ks), new(arr(mk("values", c, ty=Ty("list", NAT))))])
        if kw:
            return None
        return new(ks)
    if n == "save":
        eng.effect("np.save", {"path": E.path(R(0)), "value": R(1), "kwargs": {k: eng.resolve(v, st) for k, v in kw.items()}}, st)
        return NONEV
    if n == "load":
        k = {k: eng.resolve(v, st) for k, v in kw.items()}
        eng.effect("np.load", {"path": E.path(R(0)), "kwargs": k, "args": [eng.resolve(a, st) for a in args[1:]]}, st)
        p_ = E.path(R(0))
        if eng.fs is not None and p_.key in eng.fs:
            return eng.fs[p_.key]
        v = mk("npload", p_, ty=ARRAY)
        if "mmap_mode" in k and not is_const(k["mmap_mode"], None):
            pass
        return v
    if n == "arange":
        if len(args) <= 2:
            return new(arr(eng.to_seq(range_([eng.resolve(a, st) for a in args]), st)))
        return None
    if n == "where" and len(args) == 3:
        c = R(0)
        return new(mk("where", c, R(1), R(2), ty=ARRAY))
    if n == "clip" and len(args) == 3:
        r = R(0)
        if not is_const(R(1), None):
            r = minmax("max", [r, R(1)])
        if not is_const(R(2), None):
            r = minmax("min", [r, R(2)])
        return narr(eng, st, r)
    if n in NP_KNOWN and len(args) == 1 and not kw:
        return narr(eng, st, npf(n, R(0)))
    if n in ("round", "around", "round_") and not (set(kw) - {"decimals"}):
        return narr(eng, st, npf("round", R(0), eng.resolve(args[1] if len(args) > 1 else kw.get("decimals", ZERO), st)))
    if n == "sort":
        return new(tm.gather(R(0), mk("argsort", R(0), ty=Ty("array", NAT))))
    if n in ("float32", "float64", "float16"):
        return R(0)
    if n in ("int32", "int64", "intp"):
        return cast(R(0), "I")
    if n in ("isscalar", "iterable"):
        return None
    if n == "copy":
        return new(R(0))
    if n in ("ravel",):
        return eng.alloc_view(st, mk("flatten", R(0), ty=ARRAY), args[0])
    if n == "reshape":
        x = R(1)
        return eng.alloc_view(st, mk("flatten", R(0), ty=ARRAY) if numval(x) == -1 else reshape(R(0), x), args[0])
    if n in ("squeeze", "transpose", "atleast_1d", "atleast_2d", "broadcast_to", "swapaxes", "expand_dims"):
        return eng.alloc_view(st, mk("call", f, *[eng.resolve(a, st) for a in args], ty=ARRAY), args[0])
    if n == "fill_diagonal" or n in ("copyto", "put", "place", "putmask"):
        eng.mutate(args[0], n, st)
        if n == "copyto":
            eng.set_content(args[0], R(1), st)
        else:
            eng.set_content(args[0], unk("np." + n, eng.deref(args[0], st)), st)
        return NONEV
    return None


NP_KNOWN = {"abs": "abs", "absolute": "abs", "fabs": "abs", "floor": "floor", "ceil": "ceil", "rint": "round", "trunc": "trunc", "sqrt": "sqrt", "exp": "exp",
            "square": "square", "sign": "sign", "log2": "log2", "log10": "log10", "expm1": "expm1", "tanh": "tanh"}


def npf(n, x, *a):
    """a known elementwise function that no property mentions"""
    if x.op == "phi":
        return ite(x.a[0], npf(n, x.a[1], *a), npf(n, x.a[2], *a))
    return mk("npf", NP_KNOWN.get(n, n), x, *a, ty=x.ty if kind(x) in ("int", "float", "array") else ARRAY)


def argsort_(d, rest, kw, eng, st):
    """the kind of sort decides the order of equal elements"""
    kd = eng.resolve(kw.get("kind", NONEV), st)
    sb = eng.resolve(kw.get("stable", NONEV), st)
    if is_const(sb, True) or kd.op == "const" and kd.a[0] in ("stable", "mergesort"):
        return mk("argsort", d, const("stable"), ty=Ty("array", NAT))
    return mk("argsort", d, ty=Ty("array", NAT))


def seq1(eng, x, st):
    if kind(x) in ("array", "list", "tuple") or x.op in ("slice", "comp"):
        return unarr(eng.to_seq(unarr(x), st))
    return tlist([x])


def strip_arr_body(q):
    if q.op == "comp":
        N, (c, b), v = open_binder(q)
        return comp(N, c, unarr(b), v)
    return q


def elem_ty(t):
    if t.ty is not None and t.ty.elem is not None:
        return t.ty.elem
    k = elem_kind(t)
    return INT if k == "int" else None


def narr(eng, st, v):
    return eng.alloc(st, v) if kind(v) == "array" else v


def arr_like(eng, d, st):
    if kind(d) == "array":
        return d
    if kind(d) in ("int", "float", "bool"):
        return d
    q = eng.to_seq(d, st)
    if q.op == "phi":
        return ite(q.a[0], arr_like(eng, q.a[1], st), arr_like(eng, q.a[2], st))
    return arr(eng.resolve(q, st))


def content_or_arr(eng, x, st):
    d = eng.resolve(x, st)
    return d


def os_call(eng, n, s, f, args, kw, st, node):
    E = _E()
    R = lambda i: eng.resolve(args[i], st)
    if n in ("os.path.join",):
        r = E.pjoin(R(0), *[R(i) for i in range(1, len(args))])
        return E.strof(r)
    if n in ("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath"):
        if not args:
            return E.path(const("."))
        return E.pjoin(R(0), *[R(i) for i in range(1, len(args))]) if len(args) > 1 else E.path(R(0))
    if n in ("os.path.exists", "os.path.isfile", "os.path.isdir", "os.path.lexists"):
        if eng.fs is not None and s != "isdir":
            return TRUE if E.path(R(0)).key in eng.fs else FALSE
        return mk("exists", E.path(R(0)), s, ty=BOOL)
    if n == "os.path.splitext":
        p = E.strof(R(0))
        return ttuple([mk("splitext0", p, ty=STR), mk("splitext1", p, ty=STR)])
    if n == "os.path.basename":
        return mk("basename", E.path(R(0)), ty=STR)
    if n == "os.path.dirname":
        return mk("dirname", E.path(R(0)), ty=STR)
    if n in ("os.fspath", "os.path.abspath", "os.path.realpath", "os.path.normpath", "os.path.expanduser"):
        if s == "fspath":
            return E.strof(R(0))
        return mk(s, E.path(R(0)), ty=STR)
    if n in ("os.path.getsize", "os.path.getmtime", "os.stat"):
        return mk("call", f, E.path(R(0)), ty=NAT)
    if n in ("os.makedirs", "os.mkdir"):
        eng.effect("mkdir", {"path": E.path(R(0)), "kwargs": kw}, st)
        return NONEV
    if n in ("os.replace", "os.rename", "shutil.move", "shutil.copy", "shutil.copyfile", "shutil.copy2", "shutil.copytree"):
        eng.effect("replace" if s in ("replace", "rename", "move") else "copyfile", {"src": E.path(R(0)), "dst": E.path(R(1)), "name": n}, st)
        return NONEV
    if n in ("os.remove", "os.unlink", "os.rmdir"):
        eng.effect("remove", {"path": E.path(R(0)), "name": n}, st)
        return NONEV
    if n == "shutil.rmtree":
        eng.effect("rmtree", {"path": E.path(R(0)), "ref": args[0], "kwargs": {k: eng.resolve(v, st) for k, v in kw.items()}}, st)
        return NONEV
    if n == "shutil.copyfileobj":
        fwrite(eng, args[1], mk("fread", args[0], ty=BYTES), st, "copyfileobj")
        return NONEV
    if n == "tempfile.TemporaryDirectory":
        eng.tmp_n = getattr(eng, "tmp_n", 0) + 1
        p = mk("tempname", eng.tmp_n, ty=STR)
        t = mk("tempdir", eng.tmp_n, p, ty=Ty("tempdir"))
        eng.effect("tempdir", {"ref": t, "path": p, "managed": True, "kwargs": kw, "line": node.lineno if node else 0}, st)
        st.heap[("f", t.id, "name")] = p
        return t
    if n == "tempfile.mkdtemp":
        eng.tmp_n = getattr(eng, "tmp_n", 0) + 1
        p = mk("tempname", eng.tmp_n, ty=STR)
        eng.effect("tempdir", {"ref": p, "path": p, "managed": False, "kwargs": kw, "line": node.lineno if node else 0}, st)
        return p
    if n in ("io.open", "codecs.open", "gzip.open"):
        return builtin(eng, "open", mk("builtin", "open"), args, kw, st, node)
    if n in ("os.environ.get", "os.getenv"):
        return mk("sym", "env:" + show(args[0]))
    if n == "os.cpu_count" or n == "multiprocessing.cpu_count":
        return mk("sym", "cpu_count", ty=NAT)
    if n in ("os.listdir", "os.scandir"):
        if eng.fs_entries is not None:
            return eng.alloc(st, mk("list", tuple(const(x) for x in eng.fs_entries), ty=ListOf(STR)))
        return mk("call", f, R(0), ty=ListOf(STR))
    return None


def builtin(eng, n, f, args, kw, st, node):
    E = _E()
    R = lambda i: eng.resolve(args[i], st)
    D = lambda i: eng.deref(args[i], st)
    if n in BUILTIN_SIG:
        ga = gate(BUILTIN_SIG[n], args, kw, eng, st)
        if ga is None:
            return call_generic(eng, n, f, args, kw, st, pure=True)
        args, kw = ga
    if n in NEEDS_SIZE and len(args) == 1 and args[0].op == "const" and not isinstance(args[0].a[0], (str, bytes)):
        eng.do_raise("TypeError", const("not iterable"), st, node)
    if n == "len":
        k = eng.obj_class(args[0], st)
        if k is not None and not (k.is_nt and args[0].op == "nt") and eng.find_method(k, "__len__")[0] is not None:
            return eng.call(eng.get_attr(args[0], "__len__", st), [], {}, st, node)
        if args[0].op == "nt":
            kk = eng.classes[args[0].a[0]]
            m = eng.find_method(kk, "__len__")[0]
            if m is not None:
                return eng.call(mk("bound", m, args[0]), [], {}, st, node)
        return length(D(0)) if not _E()._has_loc(D(0)) else length(D(0))
    if n == "range":
        return range_([eng.resolve(a, st) for a in args])
    if n == "enumerate":
        start = args[1] if len(args) > 1 else kw.get("start", ZERO)
        return mk("enum", D(0), start)
    if n == "zip":
        if len(args) == 1 and args[0].op == "starred":
            q = eng.to_seq(args[0].a[0], st)
            return mk("star_zip", eng.resolve(q, st))
        return mk("zipn", tuple(eng.deref(a, st) for a in args))
    if n == "map":
        return map_over(eng, args[0], args[1:], st, node)
    if n == "filter":
        return filter_over(eng, args[0], args[1], st, node)
    if n in ("sorted", "reversed"):
        if n == "reversed":
            return eng.alloc(st, mk("reversed", eng.to_seq(D(0), st), ty=LIST))
        key = kw.get("key", NONEV)
        rev = kw.get("reverse", FALSE)
        q = eng.to_seq(D(0), st)
        w = sorted_literal(eng.resolve(q, st), key, rev, eng, st, node)
        if w is not None:
            return eng.alloc(st, w)
        return eng.alloc(st, mk("sorted", eng.resolve(q, st), keyfn(eng, key, q, st, node), rev, ty=Ty("list", q.ty.elem if q.ty else None)))
    if n == "sum":
        return seq_sum(eng, D(0), st, eng.deref(args[1], st) if len(args) > 1 else kw.get("start", ZERO))
    if n in ("max", "min"):
        if len(args) > 1:
            return minmax(n, [eng.resolve(a, st) for a in args])
        d = eng.resolve(eng.to_seq(D(0), st), st)
        if d.op == "list" and d.a[0] and "key" not in kw:
            return minmax(n, list(d.a[0]))
        key = kw.get("key", NONEV)
        return mk(n + "of", unarr(d), eng.resolve(kw.get("default", NONEV), st), keyfn(eng, key, d, st, node), ty=elem_ty(d))
    if n == "abs":
        return mk("abs", R(0), ty=R(0).ty)
    if n == "round":
        return mk("round", *[eng.resolve(a, st) for a in args], ty=INT if len(args) == 1 else R(0).ty)
    if n == "any":
        return iter_any(eng, D(0), st, False)
    if n == "all":
        return lnot(iter_any(eng, D(0), st, True))
    if n == "isinstance":
        return E.restrict_top(isinst(eng, args[0], eng.deref(args[1], st), st), st.lits)
    if n == "issubclass":
        return mk("issub", args[0], args[1], ty=BOOL)
    if n == "hasattr":
        return E.restrict_top(has_attr(eng, args[0], args[1], st), st.lits)
    if n == "getattr":
        nm = args[1]
        if nm.op == "const":
            if len(args) == 3:
                h = has_attr(eng, args[0], nm, st)
                if h is TRUE:
                    return eng.get_attr(args[0], nm.a[0], st)
                if h is FALSE:
                    return args[2]
                return ite(h, eng.get_attr(args[0], nm.a[0], st), args[2])
            return eng.get_attr(args[0], nm.a[0], st)
        return eng.unmodel("getattr-dyn", R(0), R(1))
    if n == "setattr":
        if args[1].op == "const":
            eng.set_attr(args[0], args[1].a[0], args[2], st)
        else:
            eng.unmodel("setattr-dyn")
            eng.effect("setattr", {"ref": args[0], "root": eng.rootof(args[0])[0], "path": "", "name": "?", "value": args[2]}, st)
        return NONEV
    if n == "callable":
        d = D(0)
        if d.op in ("func", "bound", "partial", "class", "ext", "builtin") or kind(d) == "func":
            return TRUE
        if kind(d) in ("str", "int", "float", "list", "dict", "set", "none", "bool", "tuple", "array"):
            return FALSE
        return mk("callable", d, ty=BOOL)
    if n == "print":
        to = eng.resolve(kw["file"], st) if "file" in kw else NONEV
        if kind(to) == "file" or to.op == "file":
            sep, end = (eng.resolve(kw[k], st) if k in kw else const(d0) for k, d0 in (("sep", " "), ("end", "\n")))
            parts = []
            for i in range(len(args)):
                parts += ([sep] if i else []) + [E.strof(R(i))]
            fwrite(eng, to, tm.cat(parts + [end]), st)
        return NONEV
    if n == "open":
        mode = args[1] if len(args) > 1 else kw.get("mode", const("r"))
        enc = kw.get("encoding", args[3] if len(args) > 3 else NONEV)
        return file_of(eng, args[0], eng.resolve(mode, st), eng.resolve(enc, st), st, {k: v for k, v in kw.items() if k not in ("mode", "encoding")})
    if n == "list":
        return eng.alloc(st, eng.to_seq(D(0), st) if args else tlist([]))
    if n == "tuple":
        if not args:
            return ttuple([])
        q = eng.to_seq(D(0), st)
        return ttuple(q.a[0]) if q.op == "list" else mk("tupleof", q, ty=Ty("tuple", q.ty.elem if q.ty else None))
    if n == "dict":
        d = mk("dict", (), ty=DICT)
        if args:
            x = D(0)
            if kind(x) == "dict":
                d = x
            elif x.op == "phi" and kind(x) == "dict":
                d = x
            else:
                N, g, e, v, lit = eng.iter_term(x, fresh(), st)
                if lit is not None:
                    for y in lit:
                        d = E.setitem(d, index(y, ZERO), index(y, ONE))
                elif x.ty is None and x.op != "zipn":
                    d = mk("dictof", x, ty=DICT)
                else:
                    d = E.mkdict_(comp(N, g, e, v), DICT)
        for k, v in kw.items():
            d = E.setitem(d, const(k), v) if k != "**" else E.dmerge(d, eng.deref(v, st))
        return eng.alloc(st, d)
    if n in ("set", "frozenset"):
        return eng.alloc(st, E.mkset(E.seqof(eng.resolve(eng.to_seq(D(0), st), st))) if args else E.mkset(tlist([])))
    if n == "str":
        return E.strof(R(0)) if args else const("")
    if n == "int":
        if not args:
            return ZERO
        x = R(0)
        if kind(x) in ("int",):
            return x
        return mk("toint", x, ty=INT)
    if n == "float":
        x = R(0) if args else ZERO
        if x.op == "const" and isinstance(x.a[0], str):
            return const(float(x.a[0]))
        return x
    if n == "bool":
        return truth(D(0)) if args else FALSE
    if n == "type":
        return mk("typeof", D(0))
    if n == "iter":
        return args[0]
    if n == "next":
        d = D(0)
        if d.op == "file" and kind(d) != "list":
            return file_method(eng, args[0], d, "readline", [], {}, st, node)
        if d.op in ("comp", "list"):
            N, g, e, v, lit = eng.iter_term(d, fresh(), st)
            if lit is not None:
                if lit:
                    return lit[0]
                return args[1] if len(args) > 1 else eng.unmodel("next-empty")
            found = anyc(N, g, v)
            ety = e.ty
            lits = {k_: v_ for k_, (a_, v_) in tm.implied_literals(g).items()}
            if ety is not None and ety.kind in ("list", "array", "str") and \
                    tm.restrict(tm.cmp("<", length(e), tm.ONE), lits) is FALSE:
                ety = tm.Ty(ety.kind, ety.elem, True)
            first = mkbind("firstc", N, (g, e), v, ty=ety)
            if len(args) > 1:
                dflt = args[1]
                dv = eng.deref(dflt, st)
                return ite(found, first, dv if kind(dv) in ("list", "tuple") else dflt)
            return first
        an = node.args[0] if isinstance(node, ast.Call) and node.args else None
        if isinstance(an, ast.GeneratorExp) or isinstance(an, ast.Call) and isinstance(an.func, ast.Name) and an.func.id in ("iter", "map", "filter", "zip", "enumerate", "reversed"):
            N, g, e, v, lit = eng.iter_term(d, fresh(), st)
            if g is TRUE and lit is None:
                x = tm.subst(e, {v.a[0]: ZERO}) if is_term(v) else None
                if x is not None:
                    if len(args) < 2:
                        return x
                    return ite(tm.cmp("<", N, tm.ONE), eng.resolve(args[1], st), x)
        eng.effect("consume", {"ref": args[0], "root": eng.rootof(args[0])[0]}, st)
        if len(args) > 1:
            return mk("next", eng.resolve(d, st), R(1))
        return mk("next", eng.resolve(d, st))
    if n == "id":
        return mk("idof", args[0], ty=INT)
    if n == "hash":
        return mk("hash", R(0), ty=INT)
    if n == "slice":
        a = [eng.resolve(x, st) for x in args]
        if len(a) == 1:
            a = [NONEV, a[0]]
        return mk("sliceobj", a[0], a[1], a[2] if len(a) > 2 else NONEV)
    if n == "divmod":
        return ttuple([mk("idiv", R(0), R(1)), mk("mod", R(0), R(1))])
    if n == "pow":
        v = numval(R(1))
        if v is not None and v.denominator == 1:
            return power(R(0), int(v))
    if n in ("repr", "format", "chr", "bytes", "hex"):
        return mk("call", f, *[eng.resolve(a, st) for a in args], ty=STR)
    if n in ("eval", "exec", "compile", "__import__", "input"):
        return call_generic(eng, n, f, args, kw, st)
    if n.endswith("Error") or n in ("Exception", "BaseException", "Warning", "KeyboardInterrupt"):
        return mk("excobj", n)
    if n == "object":
        return mk("sym", "object()")
    if n in ("vars", "globals", "locals", "dir"):
        return call_generic(eng, n, f, args, kw, st)
    return call_generic(eng, n, f, args, kw, st, pure=True)


def sorted_literal(q, key, rev, eng=None, st=None, node=None):
    """sorted() of a literal list whose order can be told, or of at most two elements"""
    if q.op != "list" or rev not in (TRUE, FALSE):
        return None
    xs = list(q.a[0])
    if not is_const(key, None):
        if eng is None or len(xs) > 2:
            return None
        if len(xs) < 2:
            return q
        try:
            a, b = (eng.resolve(eng.call(key, [x], {}, st, node), st) for x in xs)
        except Exception:
            return None
        return ite(tm.cmp("<", a, b) if rev is TRUE else tm.cmp("<", b, a), tlist([xs[1], xs[0]]), q)
    if len(xs) > 1 and len(set(x.key for x in xs)) == 1:
        return q
    if len(xs) < 2:
        return q
    if all(x.op == "const" and isinstance(x.a[0], str) for x in xs):
        return tlist(sorted(xs, key=lambda x: x.a[0], reverse=rev is TRUE))
    if len(xs) == 2:
        a, b = xs
        return ite(tm.cmp("<", a, b) if rev is TRUE else tm.cmp("<", b, a), tlist([b, a]), q)
    return None


def keyfn(eng, key, q, st, node):
    """the sort key as a function of a canonical placeholder"""
    if is_const(key, None):
        return NONEV
    if key.op == "itemgetter":
        return mk("keyof", index(mk("sym", "__key_elem"), key.a[0]))
    x = mk("sym", "__key_elem")
    try:
        s2 = st.copy()
        v = eng.resolve(eng.call(key, [x], {}, s2, node), s2)
    except Exception:
        return eng.unmodel("sort-key")
    return mk("keyof", v)


def filter_over(eng, fn, it, st, node):
    E = _E()
    acc = eng.alloc(st, tlist([]))
    name = "__flt%d" % eng.loc_n
    fr = E.Frame(None, eng.cur_mod)
    tgt = ast.Name(id=name, ctx=ast.Store(), lineno=getattr(node, "lineno", 0), col_offset=0)

    def body(s, f):
        x = s.env[name]
        c = truth(eng.deref(x, s)) if is_const(fn, None) else truth(eng.resolve(eng.call(fn, [x], {}, s, node), s))
        if c is FALSE:
            return s
        cur = eng.deref(acc, s)
        eng.set_content(acc, ite(c, concat(cur, tlist([x])), cur), s)
        return s
    eng.loop_c(it, tgt, body, st, fr, tgt)
    return acc


PURE_STR = {"split", "rsplit", "strip", "lstrip", "rstrip", "upper", "title", "capitalize", "replace", "startswith", "endswith", "find",
            "rfind", "encode", "decode", "format", "isdigit", "isalpha", "casefold", "splitlines", "partition", "rpartition", "zfill",
            "removesuffix", "removeprefix", "isspace", "isnumeric", "isalnum", "isdecimal", "isupper", "islower", "istitle", "isascii", "isidentifier", "translate", "ljust", "rjust", "center", "count", "index", "join", "lower"}


METHOD_SIG = {"take": ["indices", "axis", "out", "mode"], "astype": ["dtype"], "encode": ["encoding", "errors"],
              "decode": ["encoding", "errors"], "fill": ["value"], "item": ["args"], "split": ["sep", "maxsplit"],
              "rsplit": ["sep", "maxsplit"], "argpartition": ["kth", "axis"], "find": ["sub", "start", "end"]}
DEBUG = [False]


def method(eng, recv, name, args, kw, st, node):
    args = list(args)
    sig = METHOD_SIG.get(name)
    if sig and kw:
        kw = dict(kw)
        while len(args) < len(sig) and sig[len(args)] in kw:
            args.append(kw.pop(sig[len(args)]))
    try:
        return method0(eng, recv, name, args, kw, st, node)
    except (IndexError, KeyError, AttributeError, TypeError, AssertionError, ValueError) as ex:
        if DEBUG[0]:
            raise
        return eng.unmodel("internal-method-%s:%s" % (name, type(ex).__name__))


def ext_call(eng, f, args, kwargs, st, node):
    try:
        return ext_call0(eng, f, args, kwargs, st, node)
    except (IndexError, KeyError, AttributeError, TypeError, AssertionError, ValueError) as ex:
        if DEBUG[0]:
            raise
        return eng.unmodel("internal-call-%s:%s" % (f.a[0], type(ex).__name__))


def method0(eng, recv, name, args, kw, st, node):
    E = _E()
    d = eng.deref(recv, st)
    if d.op == "phi" and recv.op != "loc" and kind(d) not in ("list", "dict", "set", "array", "str"):
        return eng.branch(d.a[0], st, lambda s: method(eng, d.a[1], name, args, kw, s, node), lambda s: method(eng, d.a[2], name, args, kw, s, node))
    k = kind(d)
    R = lambda i: eng.resolve(args[i], st)

    if recv.op == "super":
        return NONEV
    if k in ("dict", "list", "set", "array", "str", "tuple") and not kw:
        # the method behind an operator, taken as a function
        if name == "__contains__" and len(args) == 1:
            return E.contains_(R(0), eng.resolve(d, st))
        if name == "__getitem__" and len(args) == 1:
            return eng.subscript(d, R(0), st)
        if name == "__len__" and not args:
            return length(eng.resolve(d, st))
    if d.op == "executor":
        if name == "map":
            return map_over(eng, args[0], args[1:], st, node, parallel=True)
        if name == "submit":
            eng.par += 1
            try:
                v = eng.call(args[0], list(args[1:]), {k_: v_ for k_, v_ in kw.items()}, st, node)
            finally:
                eng.par -= 1
            return mk("future", v)
        return NONEV
    if d.op == "future":
        if name == "result":
            return d.a[0]
        return mk("meth", d, name)
    if d.op == "unordered" or (d.op == "index" and d.a[0].op == "unordered"):
        if name == "result":
            return mk("unk", "unordered-result", d)
    if d.op == "index" and d.a[0].op == "comp" and name == "result":
        pass
    if d.op == "spm" and name in ("tocsc", "asformat"):
        return d.a[1]
    if d.op == "csc" and name in ("sort_indices", "sum_duplicates", "eliminate_zeros", "prune"):
        return NONEV
    if d.op == "csc" and name in ("tocsc", "copy"):
        return d
    if recv.op == "tempdir" and name == "cleanup":
        eng.effect("rmtree", {"path": E.path(recv.a[1]), "ref": recv, "kwargs": {}}, st)
        return NONEV
    if k == "array" and name in ("ids",):
        return None
    if k == "list":
        r = list_method(eng, recv, d, name, args, kw, st, node)
        if r is not None:
            return r
    if k == "dict" or (k is None and name in ("keys", "items", "values", "setdefault") and recv.op != "ext"):
        r = dict_method(eng, recv, d, name, args, kw, st, node)
        if r is not None:
            return r
    if k == "set":
        r = set_method(eng, recv, d, name, args, kw, st, node)
        if r is not None:
            return r
    if k == "array":
        r = array_method(eng, recv, d, name, args, kw, st, node)
        if r is not None:
            return r
    if k == "str" or (k is None and name in ("lower", "split", "strip", "encode", "join", "startswith", "endswith", "format", "upper", "lstrip", "rstrip", "splitlines") and recv.op != "ext"):
        r = str_method(eng, recv, d, name, args, kw, st, node)
        if r is not None:
            return r
    if k == "bytes":
        if name == "decode":
            if d.op == "odumps":
                return mk("odecode", d, ty=STR)
            enc, err = (eng.resolve(args[j], st) if len(args) > j else eng.resolve(kw[n_], st) if n_ in kw else const(d0)
                        for j, n_, d0 in ((0, "encoding", "utf-8"), (1, "errors", "strict")))
            if enc.op == "const" and isinstance(enc.a[0], str) and enc.a[0].lower().replace("_", "-") in ("utf8", "utf-8"):
                enc = const("utf-8")
            return mk("decode", d, enc, ty=STR) if is_const(err, "strict") else mk("decode", d, enc, err, ty=STR)
        return mk("meth", d, name, *[eng.resolve(a, st) for a in args], ty=BYTES)
    if k == "slice" and name == "indices":
        n_ = eng.resolve(args[0], st)
        return ttuple([mk("sidx", d, n_, const(j), ty=INT) for j in range(3)])
    if k == "path":
        r = path_method(eng, recv, d, name, args, kw, st, node)
        if r is not None:
            return r
    if k == "file":
        r = file_method(eng, recv, d, name, args, kw, st, node)
        if r is not None:
            return r
    if d.op == "recompile":
        if name == "findall" and eng.sym_results.get("findall") is not None and len(args) == 1 and not kw:
            r = eng.sym_results["findall"]([d, eng.resolve(args[0], st)], st)
            if r is not None:
                return r
        if name in ("findall", "split"):
            return mk("meth", d, name, *[eng.resolve(a, st) for a in args], ty=ListOf(STR))
        return mk("meth", d, name, *[eng.resolve(a, st) for a in args])
    if k == "mmap":
        ra = [eng.resolve(a, st) for a in args]
        stateful = name in ("seek", "readline", "read", "read_byte", "tell", "write")
        eng.effect("mmapop", {"ref": d, "name": name, "args": ra, "stateful": stateful}, st)
        if name == "seek" and ra:
            st.heap[("cur", d.id)] = ra[0]
            return NONEV
        if name in ("readline", "read"):
            cur = st.heap.get(("cur", d.id), mk("sym", "cursor0", ty=NAT))
            return mk("mmread", d, name, cur, *ra, ty=BYTES)
        if name == "find":
            return mk("mmfind", d, *ra, ty=INT)
        return mk("meth", d, name, *ra)
    # ---- unknown receiver
    ra = [eng.resolve(a, st) for a in args]
    kwt = tuple(sorted(((const(k_), eng.resolve(v, st)) for k_, v in kw.items()), key=lambda p: p[0].a[0]))
    if name in E.MUTATORS and recv.op not in ("ext", "call", "meth") and k is None:
        rt, path = eng.rootof(recv)
        if rt is not None and rt.op == "sym":
            eng.effect("maybe_mutate", {"ref": recv, "root": rt, "path": path, "how": name, "args": ra}, st)
    eng.effect("method", {"name": name, "recv": d, "ref": recv, "args": ra, "kwargs": {k_.a[0]: v for k_, v in kwt}, "refs": list(args) + list(kw.values())}, st)
    if name in ("close",):
        eng.effect("close", {"ref": recv, "value": d}, st)
    if d.op in ("call", "callres") and isinstance(d.a[0], tm.T) and d.a[0].op == "ext" and d.a[0].a[0] == "pytrec_eval.RelevanceEvaluator" and name == "evaluate":
        return mk("meth", d, name, *ra, kwt, ty=Ty("dict", Ty("dict", FLOAT)))
    return mk("meth", d, name, *ra, kwt)


def list_method(eng, recv, d, name, args, kw, st, node):
    E = _E()
    R = lambda i: eng.resolve(args[i], st)
    if name == "append":
        eng.mutate(recv, name, st, value=args[0])
        eng.set_content(recv, concat(d, tlist([args[0]])), st)
        return NONEV
    if name == "extend":
        eng.list_extend(recv, args[0], st)
        return NONEV
    if name == "copy":
        return eng.alloc(st, d)
    if name == "insert":
        eng.mutate(recv, name, st, value=args[1])
        if is_zero(args[0]):
            eng.set_content(recv, concat(tlist([args[1]]), d), st)
        else:
            eng.set_content(recv, mk("inserted", d, R(0), R(1), ty=d.ty), st)
        return NONEV
    if name == "pop":
        eng.mutate(recv, name, st)
        if not args and d.op == "list" and d.a[0]:
            eng.set_content(recv, tlist(d.a[0][:-1]), st)
            return d.a[0][-1]
        i = R(0) if args else const(-1)
        v = index(d, i)
        eng.set_content(recv, mk("popped", d, i, ty=d.ty), st)
        return v
    if name in ("sort", "reverse", "clear", "remove"):
        eng.mutate(recv, name, st)
        if name == "clear":
            eng.set_content(recv, tlist([]), st)
        elif name == "sort":
            w = sorted_literal(eng.resolve(d, st), kw.get("key", NONEV), kw.get("reverse", FALSE), eng, st, node)
            if w is not None:
                eng.set_content(recv, w, st)
                return NONEV
            eng.set_content(recv, mk("sorted", eng.resolve(d, st), keyfn(eng, kw.get("key", NONEV), d, st, node), kw.get("reverse", FALSE), ty=d.ty), st)
        else:
            eng.set_content(recv, mk(name + "d", d, *[eng.resolve(a, st) for a in args], ty=d.ty), st)
        return NONEV
    if name == "index":
        return mk("index_of", d, R(0))
    if name == "count":
        return mk("cnt", d, R(0), ty=NAT)
    if name == "tolist":
        return eng.alloc(st, d)
    return None


def dkeys(d):
    return keys_(d)


def dget(eng, d, k, dflt, st):
    """d.get(k, dflt)"""
    E = _E()
    if d.op == "phi" or k.op == "phi":
        r = tm._lift2(lambda a, b: dget(eng, a, b, dflt, st), d, k)
        if r is not None:
            return r
    if d.op == "mu":
        return mk("dget", d, k, dflt, ty=d.ty.elem if d.ty is not None and d.ty.elem else (dflt.ty if kind(dflt) == "int" else None))
    c = E.contains_(k, d)
    return ite(c, index(d, k), dflt)


def dict_method(eng, recv, d, name, args, kw, st, node):
    E = _E()
    R = lambda i: eng.resolve(args[i], st)
    if name in ("keys", "values", "items", "elements"):
        if d.op == "phi" and kind(d) == "dict":
            return map_phi(d, lambda x: {"keys": keys_, "values": values_}.get(name, lambda y: mk(name, y))(x))
        return {"keys": keys_, "values": values_}.get(name, lambda y: mk(name, y))(d) if name != "elements" else None
    if name == "get":
        dflt = args[1] if len(args) > 1 else NONEV
        return dget(eng, d, R(0), dflt, st)
    if name == "copy":
        return eng.alloc(st, d)
    if name == "setdefault":
        k = R(0)
        c = E.restrict_top(E.contains_(k, d), st.lits)
        dflt = args[1] if len(args) > 1 else NONEV
        eng.mutate(recv, name, st, index=k, value=dflt, cond=lnot(c))
        new = E.setitem(d, k, dflt)
        eng.set_content(recv, ite(c, d, new), st)
        return ite(c, index(d, k), dflt)
    if name == "update":
        eng.mutate(recv, name, st, value=args[0] if args else NONEV)
        if d.op == "counter" and args:
            q = content_of(eng, args[0], st)
            eng.set_content(recv, E.counter(concat(d.a[0], q)), st)
            return NONEV
        x = d
        if args:
            y = eng.deref(args[0], st)
            if kind(y) != "dict":
                N, g, e, v, lit = eng.iter_term(y, fresh(), st)
                if lit is not None:
                    for z in lit:
                        x = E.setitem(x, index(z, ZERO), index(z, ONE))
                    y = None
                else:
                    y = mk("mkdict", comp(N, g, e, v), ty=DICT) if y.ty is not None else mk("dictof", y, ty=DICT)
            if y is not None:
                x = E.dmerge(x, y)
        for k, v in kw.items():
            x = E.setitem(x, const(k), v) if k != "**" else E.dmerge(x, eng.deref(v, st))
        eng.set_content(recv, x, st)
        return NONEV
    if name == "pop":
        k = R(0)
        eng.mutate(recv, name, st, index=k)
        dflt = args[1] if len(args) > 1 else None
        v = dget(eng, d, k, dflt, st) if dflt is not None else index(d, k)
        if d.op == "dict" and k.op == "const":
            eng.set_content(recv, mk("dict", tuple(p for p in d.a[0] if p[0].key != k.key), ty=DICT), st)
        else:
            eng.set_content(recv, mk("delitem", d, k, ty=d.ty), st)
        return v
    if name == "clear":
        eng.mutate(recv, name, st)
        eng.set_content(recv, mk("dict", (), ty=DICT), st)
        return NONEV
    if name == "popitem":
        eng.mutate(recv, name, st)
        eng.set_content(recv, unk("popitem", d), st)
        return unk("popitem-value", d)
    if name == "most_common":
        return mk("meth", d, name, *[eng.resolve(a, st) for a in args], ty=LIST)
    return None


def map_phi(t, f):
    if t.op == "phi":
        return ite(t.a[0], map_phi(t.a[1], f), map_phi(t.a[2], f))
    return f(t)


def set_method(eng, recv, d, name, args, kw, st, node):
    E = _E()
    R = lambda i: eng.resolve(args[i], st)

    def sq(i):
        return E.seqof(eng.resolve(eng.to_seq(eng.deref(args[i], st), st), st))
    if name == "add":
        eng.mutate(recv, name, st, value=args[0])
        eng.set_content(recv, E.mkset(concat(E.seqof(d), tlist([R(0)]))), st)
        return NONEV
    if name == "update":
        eng.mutate(recv, name, st, value=args[0] if args else NONEV)
        q = E.seqof(d)
        for i in range(len(args)):
            q = concat(q, sq(i))
        eng.set_content(recv, E.mkset(q), st)
        return NONEV
    if name == "intersection":
        r = d
        for i in range(len(args)):
            r = E.sinter(r, E.mkset(sq(i)))
        return eng.alloc(st, r)
    if name == "union":
        q = E.seqof(d)
        for i in range(len(args)):
            q = concat(q, sq(i))
        return eng.alloc(st, E.mkset(q))
    if name == "difference":
        r = d
        for i in range(len(args)):
            r = mk("sdiff", r, E.mkset(sq(i)))
        return eng.alloc(st, r)
    if name == "copy":
        return eng.alloc(st, d)
    if name in ("issubset", "issuperset", "isdisjoint"):
        return mk("setrel", name, d, E.mkset(sq(0)), ty=BOOL)
    if name in ("discard", "remove", "clear", "pop", "difference_update", "intersection_update"):
        eng.mutate(recv, name, st)
        eng.set_content(recv, mk("set_" + name, d, *[eng.resolve(a, st) for a in args], ty=d.ty), st)
        return unk("set-pop", d) if name == "pop" else NONEV
    return None


def array_method(eng, recv, d, name, args, kw, st, node):
    E = _E()
    R = lambda i: eng.resolve(args[i], st)
    d = eng.resolve(d, st)

    def new(v):
        return eng.alloc(st, v)

    def view(v):
        return eng.alloc_view(st, v, recv)
    if name in ARR_SIG:
        ga = gate(ARR_SIG[name], args, kw, eng, st)
        if ga is None:
            for i, x in list(enumerate(args)) + list(kw.items()):
                x = eng.resolve(x, st)
                if x.op == "phi" and kind(x) in ("str", "int", "none", None):
                    def alt(y):
                        a2, k2 = list(args), dict(kw)
                        if isinstance(i, int):
                            a2[i] = y
                        else:
                            k2[i] = y
                        return lambda s: array_method(eng, recv, d, name, a2, k2, s, node)
                    return eng.branch(x.a[0], st, alt(x.a[1]), alt(x.a[2]))
            if name in ("flatten", "ravel") and len(args) + len(kw) == 1:
                o = eng.resolve((list(args) + list(kw.values()))[0], st)
                if is_const(o, "F"):
                    return new(mk("flattenF", d, ty=Ty("array", d.ty.elem if d.ty else None)))
            return mk("meth", d, name, *[eng.resolve(a, st) for a in args], tuple(sorted(((const(k_), eng.resolve(v, st)) for k_, v in kw.items()), key=lambda p: p[0].a[0])))
        args, kw = ga
    if name == "view":
        return recv
    if name == "sum":
        return seq_sum(eng, d, st)
    if name == "mean" and not args:
        return seq_mean(eng, d, st)
    if name in ("any", "all") and not args and not kw:
        r = array_any(d, name == "all")
        if r is not None:
            return r
    if name in ("max", "min"):
        return mk(name + "of", unarr(d), eng.resolve(kw.get("initial", NONEV), st), NONEV, ty=elem_ty(d))
    if name in ("flatten", "ravel"):
        return (new if name == "flatten" else view)(mk("flatten", d, ty=Ty("array", d.ty.elem if d.ty else None)))
    if name == "reshape":
        if kw:
            return view(unk("reshape-kw", d))
        a = args[0] if len(args) == 1 else ttuple(args)
        x = eng.resolve(a, st)
        if numval(x) == -1:
            return view(mk("flatten", d, ty=Ty("array", d.ty.elem if d.ty else None)))
        return view(reshape(d, x))
    if name == "tolist":
        return new(mk("copy_list", d, ty=Ty("list", d.ty.elem if d.ty else None)) if d.op != "arr" else d.a[0])
    if name == "astype":
        v = cast(d, dtype_class(R(0) if args else eng.resolve(kw.get("dtype", NONEV), st)))
        cp = eng.resolve(args[1] if len(args) > 1 else kw.get("copy", TRUE), st)
        return new(v) if is_const(cp, True) else view(v)
    if name == "clip":
        lo = eng.resolve(args[0] if args else kw.get("min", kw.get("a_min", NONEV)), st)
        hi = eng.resolve(args[1] if len(args) > 1 else kw.get("max", kw.get("a_max", NONEV)), st)
        r = d
        if not is_const(lo, None):
            r = minmax("max", [r, lo])
        if not is_const(hi, None):
            r = minmax("min", [r, hi])
        return new(r)
    if name == "round":
        return new(npf("round", d, eng.resolve(args[0] if args else kw.get("decimals", ZERO), st)))
    if name == "take":
        return new(index(d, R(0)))
    if name == "copy":
        return new(d)
    if name == "argsort":
        return new(argsort_(d, args, kw, eng, st))
    if name == "argpartition":
        return new(mk("argpart", d, eng.resolve(kw.get("kth", args[0] if args else NONEV), st), ty=Ty("array", NAT)))
    if name == "cumsum":
        return cumsum(eng, recv, st)
    if name in ("sort", "fill", "partition", "resize", "setflags", "put", "itemset"):
        eng.mutate(recv, name, st)
        if name == "fill":
            v = R(0)
            eng.set_content(recv, mk("zeros", length(d), "F", ty=d.ty) if is_zero(v) else mk("full", length(d), v, ty=d.ty), st)
        elif name == "sort":
            eng.set_content(recv, tm.gather(d, mk("argsort", d, ty=Ty("array", NAT))), st)
        elif name != "setflags":
            eng.set_content(recv, unk("arr-" + name, d), st)
        return NONEV
    if name == "item" and not args:
        return index(d, ZERO)
    if name == "tocsc":
        return d
    return mk("meth", d, name, *[eng.resolve(a, st) for a in args], tuple(sorted(((const(k_), eng.resolve(v, st)) for k_, v in kw.items()), key=lambda p: p[0].a[0])))


def reshape(d, shape):
    if d.op == "phi":
        return ite(d.a[0], reshape(d.a[1], shape), reshape(d.a[2], shape))
    if d.op == "arr":
        r = reshape(d.a[0], shape)
        if r.op != "reshape":
            return r
    fl = d if d.op in ("flatten", "flattenF") else d.a[1] if d.op == "gather" and d.a[1].op in ("flatten", "flattenF") else None
    if fl is not None:
        X = fl.a[0]
        Y = X.a[0] if X.op == "arr" else X
        same = False
        if shape.op == "attr" and shape.a[1] == "shape":
            Z = shape.a[0].a[0] if shape.a[0].op == "arr" else shape.a[0]
            same = Z.key == Y.key
        elif shape.op in ("tuple", "list") and len(shape.a[0]) == 2:
            same = shape.a[0][0].key == length(Y).key
        if same:
            if fl.op == "flattenF":
                X = mk("reshuffled", X, ty=X.ty)     # column by column into rows
            return X if d.op in ("flatten", "flattenF") else gather(d.a[0], X)
    return mk("reshape", d, shape, ty=ARRAY)


def str_method(eng, recv, d, name, args, kw, st, node):
    E = _E()
    R = lambda i: eng.resolve(args[i], st)
    d = eng.resolve(d, st)
    if name == "lower":
        return lower(d)
    if name == "join":
        q = eng.resolve(eng.to_seq(eng.deref(args[0], st), st), st)
        if q.op == "list":
            parts = []
            for i, x in enumerate(q.a[0]):
                if i:
                    parts.append(d)
                parts.append(x)
            return cat(parts)
        return mk("join_str", d, q)
    if name == "format":
        return fmt(d, [eng.resolve(a, st) for a in args], {k: eng.resolve(v, st) for k, v in kw.items()})
    if name == "removesuffix" and len(args) == 1 and R(0).op == "splitext1" and R(0).a[0].key == d.key:
        return mk("splitext0", d, ty=STR)
    if name in PURE_STR:
        if d.op == "const" and all(eng.resolve(a, st).op == "const" for a in args) and not kw and name in ("startswith", "endswith", "strip", "upper", "replace", "lstrip", "rstrip"):
            try:
                return const(getattr(d.a[0], name)(*[R(i).a[0] for i in range(len(args))]))
            except Exception:
                pass
        ty = STR
        if name in ("startswith", "endswith", "isdigit", "isalpha", "isspace", "isnumeric", "isalnum", "isdecimal", "isupper", "islower", "istitle", "isascii", "isidentifier"):
            ty = BOOL
            if d.op == "phi":
                pass
        elif name in ("split", "rsplit", "splitlines"):
            ty = ListOf(STR)
        elif name in ("find", "rfind", "count", "index"):
            ty = INT
        elif name == "encode":
            ty = BYTES
        elif name in ("partition", "rpartition"):
            ty = TUPLE
        a = tuple(eng.resolve(x, st) for x in args)
        return mk("strm", name, d, *a, tuple(sorted(((const(k_), eng.resolve(v, st)) for k_, v in kw.items()), key=lambda p: p[0].a[0])), ty=ty)
    return None


def lower(d):
    if d.op == "phi":
        return ite(d.a[0], lower(d.a[1]), lower(d.a[2]))
    if d.op == "const" and isinstance(d.a[0], str):
        return const(d.a[0].lower())
    if d.op == "lower":
        return d
    return mk("lower", d)


def fmt(d, args, kw):
    import string
    if d.op != "const":
        return mk("strm", "format", d, *args, tuple(sorted(((const(k), v) for k, v in kw.items()), key=lambda p: p[0].a[0])), ty=STR)
    E = _E()
    parts = []
    n = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(d.a[0]):
            if lit:
                parts.append(const(lit))
            if field is None:
                continue
            if field == "":
                x = args[n]
                n += 1
            elif field.isdigit():
                x = args[int(field)]
            elif field in kw:
                x = kw[field]
            else:
                x = unk("format-field", const(field))
            parts.append(mk("fmt", x, const(spec), ty=STR) if spec else E.strof(x))
    except (IndexError, ValueError):
        return mk("unk", "format", d, ty=STR)
    return cat(parts)


def path_method(eng, recv, d, name, args, kw, st, node):
    E = _E()
    R = lambda i: eng.resolve(args[i], st)
    if name == "mkdir":
        eng.effect("mkdir", {"path": d, "kwargs": kw}, st)
        return NONEV
    if name in ("exists", "is_file") and eng.fs is not None:
        return TRUE if d.key in eng.fs else FALSE
    if name in ("exists", "is_file", "is_dir"):
        return mk("exists", d, {"exists": "exists", "is_file": "isfile", "is_dir": "isdir"}[name], ty=BOOL)
    if name == "open":
        mode = args[0] if args else kw.get("mode", const("r"))
        enc = kw.get("encoding", args[2] if len(args) > 2 else NONEV)
        return file_of(eng, d, eng.resolve(mode, st), eng.resolve(enc, st), st)
    if name in ("read_text", "read_bytes"):
        f = file_of(eng, d, const("r" if name == "read_text" else "rb"), eng.resolve(kw.get("encoding", args[0] if args else NONEV), st), st)
        r = fread(eng, f, st)
        eng.effect("close", {"ref": f, "value": f}, st)
        return r
    if name in ("write_text", "write_bytes"):
        f = file_of(eng, d, const("w" if name == "write_text" else "wb"), eng.resolve(kw.get("encoding", args[1] if len(args) > 1 else NONEV), st), st)
        fwrite(eng, f, R(0), st)
        eng.effect("close", {"ref": f, "value": f}, st)
        return NONEV
    if name in ("unlink", "rmdir"):
        eng.effect("remove", {"path": d, "name": "Path." + name}, st)
        return NONEV
    if name in ("replace", "rename"):
        eng.effect("replace", {"src": d, "dst": E.path(R(0)), "name": "Path." + name}, st)
        return E.path(R(0))
    if name == "joinpath":
        return E.pjoin(d, *[R(i) for i in range(len(args))])
    if name == "with_suffix" and len(args) == 1:
        return E.path(cat([mk("splitext0", E.strof(d), ty=STR), R(0)]))
    if name == "with_name" and len(args) == 1:
        return E.pjoin(mk("attr", d, "parent", ty=PATH), R(0))
    if name in ("with_suffix", "with_name", "with_stem"):
        return mk(name, d, R(0), ty=PATH)
    if name in ("as_posix", "__str__", "__fspath__"):
        return E.strof(d)
    if name in ("resolve", "absolute", "expanduser"):
        return mk(name, d, ty=PATH)
    if name == "iterdir" and eng.fs_entries is not None:
        return eng.alloc(st, mk("list", tuple(const(x) for x in eng.fs_entries), ty=ListOf(STR)))
    if name in ("iterdir", "glob", "rglob"):
        return mk("meth", d, name, *[eng.resolve(a, st) for a in args], ty=LIST)
    return mk("meth", d, name, *[eng.resolve(a, st) for a in args])


def file_method(eng, recv, d, name, args, kw, st, node):
    R = lambda i: eng.resolve(args[i], st)
    if name == "write":
        fwrite(eng, d, R(0), st)
        return NONEV
    if name == "writelines":
        fwrite(eng, d, R(0), st, "writelines")
        return NONEV
    cell = ("cur", d.id)
    if name in ("read",):
        if args:
            eng.effect("read", {"file": d}, st)
            st.heap[cell] = mk("unk", "position", ty=NAT)
            return mk("freadn", d, R(0))
        return fread(eng, d, st)
    if name in ("readlines",):
        eng.effect("read", {"file": d}, st)
        N, g, x, v, _ = eng.iter_term(d, tm.fresh(), st)
        return eng.alloc(st, tm.comp(N, g, x, v)) if d.op == "file" and not args else mk("flines", d, mk("tick", eng.seq), ty=ListOf(STR))
    if name == "readline":
        eng.effect("read", {"file": d}, st)
        cur = st.heap.get(cell, mk("unk", "position", ty=NAT))
        binary = d.op == "file" and isinstance(d.a[1], T) and d.a[1].op == "const" and "b" in str(d.a[1].a[0])
        if args or d.op != "file" or cur.op == "unk":
            st.heap[cell] = mk("unk", "position", ty=NAT)
            return mk("freadline", d, mk("tick", eng.seq), ty=BYTES if binary else STR)
        st.heap[cell] = tm.add(cur, ONE)
        return mk("fline", d, cur, ty=BYTES if binary else STR)
    if name in ("close", "flush", "seek", "tell", "fileno", "truncate"):
        if name == "close":
            eng.effect("close", {"ref": recv, "value": d}, st)
        if name == "seek" and args:
            st.heap[cell] = ZERO if is_zero(R(0)) and len(args) == 1 else mk("unk", "position", ty=NAT)
            eng.effect("fileop", {"ref": d, "name": name, "args": [R(i) for i in range(len(args))]}, st)
        if name == "tell":
            eng.effect("fileop", {"ref": d, "name": name, "args": []}, st)
            cur = st.heap.get(cell, mk("unk", "position", ty=NAT))
            if d.op == "file" and cur.op != "unk":
                return tm.lpos(d, cur)
            return mk("ftell", d, mk("tick", eng.seq), ty=NAT)
        if name == "fileno":
            return mk("fileno", d, ty=INT)
        return NONEV
    return None


def sym_call_type(f):
    return getattr(sym_call_type, "types", {}).get(f.key)
