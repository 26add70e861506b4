"""Hash-consed value-graph terms with algebraic normal forms.

A term is the *value* of an expression in the analysed source, as a function of symbolic
inputs.  Two mechanisms make syntactically different but equivalent code meet:

* construction-time normalisation: sums/products are kept as polynomials with rational
  coefficients, conditionals as decision diagrams with an ordered set of atomic conditions,
  element-wise iteration as comprehensions over an index domain;
* fingerprints (random interpretation, Gulwani & Necula): every term has a key in Z_p x Z_p;
  arithmetic operators are interpreted in the field, everything else by hashing, so rational
  functions that are equal have equal keys whatever their shape.

Nothing here executes code of the analysed program.
"""
from fractions import Fraction
import hashlib
import sys

sys.setrecursionlimit(20000)

P = (1 << 61) - 1
MAXMONO = 400
MAXLEAF = 256


def _h(*parts):
    m = hashlib.blake2b(digest_size=16)
    for p in parts:
        m.update(repr(p).encode())
        m.update(b"\0")
    d = m.digest()
    return (int.from_bytes(d[:8], "big") % P, int.from_bytes(d[8:], "big") % P)


class T:
    __slots__ = ("op", "a", "key", "ty", "fv", "id", "src", "_resolved")

    def __repr__(self):
        return show(self)


_table = {}
_count = [0]
CUR_SRC = [None]


def is_term(x):
    return isinstance(x, T)


def _ck(x):
    if isinstance(x, T):
        return ("T", x.id)
    if isinstance(x, tuple):
        return tuple(_ck(y) for y in x)
    return (type(x).__name__, x)


def _kk(x):
    if isinstance(x, T):
        return x.key
    if isinstance(x, tuple):
        return tuple(_kk(y) for y in x)
    return (type(x).__name__, x)


def _fv(x, acc):
    if isinstance(x, T):
        acc.update(x.fv)
    elif isinstance(x, tuple):
        for y in x:
            _fv(y, acc)


EMPTY = frozenset()


SETORDER = [False]
_len_memo = {}
KNOWN = {}      # atoms decided by the scenario under analysis: key -> bool


class knowing:
    """within this context the given atoms are constants"""

    def __init__(self, lits):
        self.lits = {a.key: v for a, v in lits}

    def __enter__(self):
        KNOWN.update(self.lits)
        _len_memo.clear()

    def __exit__(self, *a):
        KNOWN.clear()
        _len_memo.clear()


def mk(op, *a, ty=None, key=None, fv=None):
    t = mk_(op, *a, ty=ty, key=key, fv=fv)
    if KNOWN and t.key in KNOWN:
        return TRUE if KNOWN[t.key] else FALSE
    return t


def mk_(op, *a, ty=None, key=None, fv=None):
    k = (op,) + tuple(_ck(x) for x in a)
    t = _table.get(k)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = a
    t.key = key if key is not None else _h(op, *[_kk(x) for x in a])
    if fv is None:
        acc = set()
        for x in a:
            _fv(x, acc)
        fv = frozenset(acc) if acc else EMPTY
    t.fv = fv
    t.ty = ty
    t.id = _count[0]
    t._resolved = None
    _count[0] += 1
    t.src = CUR_SRC[0]
    _table[k] = t
    if t.ty is None:
        t.ty = infer_type(t)
    return t


# ---------------------------------------------------------------------------- types
class Ty:
    __slots__ = ("kind", "elem", "nonempty", "cls", "extra")
    _tab = {}

    def __new__(cls, kind, elem=None, nonempty=False, klass=None, extra=None):
        k = (kind, elem, nonempty, klass, extra)
        t = cls._tab.get(k)
        if t is None:
            t = object.__new__(cls)
            t.kind, t.elem, t.nonempty, t.cls, t.extra = kind, elem, nonempty, klass, extra
            cls._tab[k] = t
        return t

    def __repr__(self):
        s = self.kind
        if self.cls:
            s += ":" + str(self.cls)
        if self.elem:
            s += "[%r]" % (self.elem,)
        return s + ("+" if self.nonempty else "")


def ty_name(t):
    return "%r%s" % (t, t.extra or "") if t is not None else ""


INT = Ty("int")
NAT = Ty("int", extra="nat")
FLOAT = Ty("float")
BOOL = Ty("bool")
STR = Ty("str")
BYTES = Ty("bytes")
NONE = Ty("none")
DICT = Ty("dict")
SET = Ty("set")
LIST = Ty("list")
TUPLE = Ty("tuple")
ARRAY = Ty("array")
FUNC = Ty("func")
PATH = Ty("path")
FILE = Ty("file")
MODULE = Ty("module")


def Obj(name):
    return Ty("obj", klass=name)


def ListOf(e, nonempty=False):
    return Ty("list", e, nonempty)


def kind(t):
    return t.ty.kind if t.ty is not None else None


def join_ty(a, b):
    if a is b:
        return a
    if a is None or b is None:
        return None
    if a.kind == b.kind:
        if a.kind == "int":
            return NAT if a.extra == "nat" and b.extra == "nat" else INT
        return Ty(a.kind, join_ty(a.elem, b.elem) if a.elem and b.elem else None,
                  a.nonempty and b.nonempty, a.cls if a.cls == b.cls else None)
    if {a.kind, b.kind} == {"int", "float"}:
        return FLOAT
    return None


NUMK = ("int", "float", "array", "bool")


def infer_type(t):
    op, a = t.op, t.a
    if op == "const":
        v = a[0]
        if v is None:
            return NONE
        if isinstance(v, bool):
            return BOOL
        if isinstance(v, int):
            return NAT if v >= 0 else INT
        if isinstance(v, (float, Fraction)):
            return FLOAT
        if isinstance(v, str):
            return STR
        if isinstance(v, bytes):
            return BYTES
        return None
    if op == "poly":
        tys = []
        ok_int = True
        anyarr = False
        nat = True
        for c, mono in a[0]:
            if c.denominator != 1:
                ok_int = False
            if c < 0:
                nat = False
            for f, e in mono:
                if f.ty is None:
                    ok_int = False
                elif f.ty.kind == "array":
                    anyarr = True
                elif f.ty.kind not in ("int", "bool"):
                    ok_int = False
                if e < 0:
                    ok_int = False
                if f.ty is not NAT:
                    nat = False
                tys.append(f.ty)
        if anyarr:
            el = None
            for i, y in enumerate(tys):
                y = y.elem if y is not None and y.kind == "array" else y
                el = y if i == 0 else join_ty(el, y) if el is not None else None
            if el is not None and el.kind in ("int", "float", "bool"):
                if any(c.denominator != 1 or any(e < 0 for _, e in m) for c, m in a[0]):
                    el = FLOAT
                elif el.kind == "int" and any(c < 0 for c, m in a[0]):
                    el = INT
                return Ty("array", el)
            return ARRAY
        if ok_int:
            return NAT if nat else INT
        if all(x is not None for x in tys):
            return FLOAT
        return None
    if op in ("lt0", "eq", "is", "isinst", "truth", "in", "hasattr", "avail", "any", "callable", "exc", "exists"):
        return BOOL
    if op in ("len", "index_of", "count"):
        return NAT
    if op == "lv":
        return NAT
    if op == "phi":
        return join_ty(a[1].ty, a[2].ty)
    if op in ("comp", "copy_list", "flat", "range", "concat_l", "list", "keys", "values", "items", "enum", "zipn", "setseq", "flines"):
        e = None
        ne = False
        if op == "comp":
            e = a[2].ty
        def el(x):
            return x.ty.elem if x.ty is not None else None
        if op == "copy_list":
            e = el(a[0])
        if op == "keys" and a[0].op == "counter":
            e = el(a[0].a[0])
        if op == "values" and a[0].op == "counter":
            e = NAT
        if op == "setseq" and a[0].op == "mkset":
            e = el(a[0].a[0])
        if op == "setseq" and a[0].op != "mkset":
            e = el(a[0])
        if op == "range":
            e = join_ty(a[0].ty, a[1].ty) if len(a) > 1 else None
        if op == "flat":
            q = el(a[0])
            e = q.elem if q is not None and q.kind in ("list", "array") else None
        if op == "concat_l":
            for i, x in enumerate(a[0]):
                e = el(x) if i == 0 else join_ty(e, el(x)) if e is not None else None
        if op == "list":
            if a[0]:
                e = a[0][0].ty
                for x in a[0][1:]:
                    e = join_ty(e, x.ty)
                ne = True
        return Ty("list", e, ne)
    if op == "tuple":
        return TUPLE
    if op in ("dict", "mkdict", "dupdate", "dset"):
        return DICT
    if op in ("mkset", "set", "sunion", "sinter", "sdiff"):
        return SET
    if op in ("fstr", "cat", "strof", "fread", "join_str", "lower"):
        return STR
    if op == "arr" and a[0].ty is not None and a[0].ty.elem is not None and a[0].ty.elem.kind in ("int", "float", "bool"):
        return Ty("array", a[0].ty.elem)
    if op == "gather" and a[0].ty is not None and a[0].ty.elem is not None and a[1].ty is not None \
            and a[1].ty.elem is not None and a[1].ty.elem.kind == "int":
        return Ty("array", a[0].ty.elem)
    if op in ("sadd", "flip") and kind(a[0]) == "array":
        return a[0].ty
    if op in ("zeros", "empty_arr", "ones", "cast") and len(a) > 1 and isinstance(a[1], str):
        scal = a[0].ty is not None and (a[0].ty.kind == "int" if op != "cast" else
                                        a[0].ty.elem is not None and a[0].ty.elem.kind in ("int", "float", "bool"))
        if scal and a[1] in "FIB":
            el = {"F": FLOAT, "I": INT, "B": BOOL}[a[1]]
            if op in ("zeros", "empty_arr") and el is INT:
                el = NAT if op == "zeros" else INT
            if op == "cast" and el is INT and a[0].ty.elem is NAT:
                el = NAT
            return Ty("array", el)
    if op in ("zeros", "empty_arr", "sadd", "ones", "gather", "argsort", "argpart", "flip", "cast", "store_arr", "topk_idx", "flatten", "reshape", "offs", "arr", "full", "where", "maxarr"):
        return ARRAY
    if op in ("func", "bound", "partial", "ext", "lam", "class", "builtin"):
        return FUNC
    if op in ("path", "pjoin"):
        return PATH
    if op == "sliceobj":
        return Ty("slice")
    if op in ("mmfind", "sidx"):
        return INT
    if op == "srange":
        return Ty("list", NAT)
    if op == "mmread":
        return BYTES
    if op == "mmapobj":
        return Ty("mmap")
    if op == "decode":
        return STR
    if op == "file":
        return FILE
    if op == "module":
        return MODULE
    if op in ("max", "min"):
        ty = None
        for i, x in enumerate(a[0]):
            ty = x.ty if i == 0 else join_ty(ty, x.ty)
        return ty
    if op == "log":
        return ARRAY if kind(a[0]) == "array" else FLOAT
    if op == "sumc":
        ty = a[2].ty
        if ty is not None and ty.kind in ("int", "bool"):
            return NAT if ty is NAT or ty.kind == "bool" else INT
        return ty
    if op == "index" and a[0].op == "app":
        return ARRAY
    if op == "index":
        b = a[0].ty
        if b is not None and b.kind in ("list", "dictof", "tuple") and b.elem is not None:
            if kind(a[1]) in ("int", None):
                return b.elem
        if b is not None and b.kind == "str":
            return STR
        if b is not None and b.kind == "array" and kind(a[1]) == "array":
            return ARRAY
        if b is not None and b.kind == "array" and b.elem is not None and kind(a[1]) == "int":
            return b.elem
        if b is not None and b.kind == "dict" and b.elem is not None:
            return b.elem
    if op == "slice":
        b = a[0].ty
        if b is not None and b.kind in ("list", "array", "str", "tuple"):
            return Ty(b.kind, b.elem)
        if b is not None and b.kind in ("mmap", "bytes"):
            return BYTES
    if op in ("idiv", "mod"):
        if kind(a[0]) == "int" and kind(a[1]) == "int":
            return INT
    return None


# ---------------------------------------------------------------------------- constants
def const(v):
    if isinstance(v, T):
        return v
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
        return mk("const", v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return mk("const", repr(v) + "f")
        return mk("const", Fraction(repr(v)), key=_fkey(Fraction(repr(v)))) if not v.is_integer() else \
            mk("const", Fraction(int(v)), key=_fkey(Fraction(int(v))), ty=FLOAT)
    if isinstance(v, int):
        return mk("const", v, key=_fkey(Fraction(v)))
    if isinstance(v, Fraction):
        if v.denominator == 1:
            return mk("const", int(v), key=_fkey(v))
        return mk("const", v, key=_fkey(v))
    return mk("const", repr(v))


def _fkey(f):
    n, d = f.numerator % P, f.denominator % P
    x = n * pow(d, P - 2, P) % P
    return (x, x)


TRUE = const(True)
FALSE = const(False)
NONEV = const(None)
ZERO = const(0)
ONE = const(1)


def is_const(t, v=...):
    if t.op != "const":
        return False
    if v is ...:
        return True
    return t.a[0] == v and type(t.a[0]) is type(v) if isinstance(v, bool) or isinstance(t.a[0], bool) else t.a[0] == v


def numval(t):
    if t.op == "const" and isinstance(t.a[0], (int, Fraction)) and not isinstance(t.a[0], bool):
        return Fraction(t.a[0])
    return None


_uid = [0]


def fresh(prefix="v"):
    _uid[0] += 1
    n = "%s#%d" % (prefix, _uid[0])
    return mk("lv", n, fv=frozenset([n]))


def lvh(h):
    n = "h%d" % h
    return mk("lv", n, fv=frozenset([n]))


def unk(reason, *deps):
    """An unmodelled value: a deterministic but unknown function of deps."""
    return mk("unk", reason, *deps)


# ---------------------------------------------------------------------------- polynomials
def as_poly(t):
    """-> dict mono -> coef"""
    if t.op == "poly":
        return {m: c for c, m in t.a[0]}
    v = numval(t)
    if v is not None:
        return {(): v} if v != 0 else {}
    if t.op == "const" and isinstance(t.a[0], bool):
        return {(): Fraction(int(t.a[0]))} if t.a[0] else {}
    return {((t, 1),): Fraction(1)}


def _mono_key(m):
    return tuple((f.key, e) for f, e in m)


def _mul_mono(m1, m2):
    d = {}
    for f, e in m1:
        d[f] = d.get(f, 0) + e
    for f, e in m2:
        d[f] = d.get(f, 0) + e
    return tuple(sorted(((f, e) for f, e in d.items() if e != 0), key=lambda x: (x[0].key, x[1])))


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    p = _merge_logs(p)
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    if len(p) > MAXMONO:
        return mk("bigpoly", tuple(sorted(((c, m) for m, c in p.items()), key=lambda x: _mono_key(x[1]))))
    items = tuple(sorted(((c, m) for m, c in p.items()), key=lambda x: (_mono_key(x[1]), x[0])))
    k = [0, 0]
    for c, m in items:
        for j in (0, 1):
            v = c.numerator % P * pow(c.denominator % P, P - 2, P) % P
            for f, e in m:
                kv = f.key[j]
                if e < 0:
                    kv = pow(kv, P - 2, P)
                v = v * pow(kv, abs(e), P) % P
            k[j] = (k[j] + v) % P
    return mk("poly", items, key=tuple(k))


def _merge_logs(p):
    # c1*log(x)*M + c2*log(y)*M -> log(x^c1 * y^c2)*M   (integer coefficients, positive arguments)
    groups = {}
    for m, c in p.items():
        logs = [(f, e) for f, e in m if f.op == "log"]
        if len(logs) == 1 and logs[0][1] == 1:
            rest = tuple(x for x in m if x[0] is not logs[0][0])
            groups.setdefault(rest, []).append((m, c, logs[0][0]))
    out = None
    for rest, lst in groups.items():
        if len(lst) > 1 and all(c.denominator == 1 and abs(c) <= 8 for _, c, _ in lst):
            if out is None:
                out = dict(p)
            arg = ONE
            for m, c, lg in lst:
                arg = mul(arg, power(lg.a[0], int(c)))
                del out[m]
            lt = log(arg)
            for m2, c2 in as_poly(lt).items():
                mm = _mul_mono(rest, m2)
                out[mm] = out.get(mm, 0) + c2
    if out is not None:
        return {m: c for m, c in out.items() if c != 0}
    return p


def add(a, b):
    r = _lift2(add, a, b)
    if r is not None:
        return r
    ka, kb = kind(a), kind(b)
    if ka in ("str", "list", "tuple") or kb in ("str", "list", "tuple"):
        if ka in ("list", "tuple") and kb in ("list", "tuple"):
            return concat(a, b)
        if ka in ("str", None) and kb in ("str", None):
            return cat([a, b])
        if ka in NUMK or kb in NUMK:
            pass  # array + list: numeric
        else:
            return mk("concat_u", a, b)
    p = dict(as_poly(a))
    for m, c in as_poly(b).items():
        p[m] = p.get(m, 0) + c
    return from_poly(p)


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    if kind(a) == "set" or kind(b) == "set":
        return mk("sdiff", a, b)
    return add(a, neg(b))


def mul(a, b):
    r = _lift2(mul, a, b)
    if r is not None:
        return r
    ka, kb = kind(a), kind(b)
    if ka in ("list", "str", "tuple") or kb in ("list", "str", "tuple"):
        if ka in ("list", "tuple", "str") and kb in ("list", "tuple", "str"):
            return mk("mul_u", a, b)
        if kb in ("list", "str", "tuple"):
            a, b = b, a
        if a.op == "list" and len(a.a[0]) == 1 and kind(b) == "int":
            return comp(b, TRUE, a.a[0][0], fresh())
        return mk("rep", a, b)
    pa, pb = as_poly(a), as_poly(b)
    if len(pa) * len(pb) > MAXMONO:
        return mk("bigmul", *sorted((a, b), key=lambda t: t.key))
    p = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mul_mono(m1, m2)
            p[m] = p.get(m, 0) + c1 * c2
    return from_poly(p)


def inv(a):
    r = _lift1(inv, a)
    if r is not None:
        return r
    v = numval(a)
    if v is not None:
        if v == 0:
            return mk("unk", "1/0")
        return const(1 / v)
    if a.op == "poly" and len(a.a[0]) == 1:
        c, m = a.a[0][0]
        return from_poly({tuple(sorted(((f, -e) for f, e in m), key=lambda x: (x[0].key, x[1]))): 1 / c})
    if a.op == "poly":
        # make the polynomial monic in its first monomial
        c0 = a.a[0][0][0]
        if c0 != 1:
            m = from_poly({m: c / c0 for c, m in a.a[0]})
            return mul(const(1 / c0), from_poly({((m, -1),): Fraction(1)}))
    return from_poly({((a, -1),): Fraction(1)})


def div(a, b):
    return mul(a, inv(b))


def power(a, n):
    if isinstance(n, int):
        if n < 0:
            return inv(power(a, -n))
        r = ONE
        for _ in range(n):
            r = mul(r, a)
        return r
    return mk("pow", a, n)


def log(a):
    r = _lift1(log, a)
    if r is not None:
        return r
    if numval(a) == 1:
        return ZERO
    return mk("log", a)


def minmax(op, xs):
    """op 'max' or 'min' over scalars / element-wise arrays"""
    flat = []
    for x in xs:
        if x.op == op:
            flat.extend(x.a[0])
        else:
            flat.append(x)
    for i, x in enumerate(flat):
        if x.op == "phi":
            return ite(x.a[0], minmax(op, flat[:i] + [x.a[1]] + flat[i + 1:]),
                       minmax(op, flat[:i] + [x.a[2]] + flat[i + 1:]))
    seen = {}
    num = None
    for x in flat:
        v = numval(x)
        if v is not None:
            num = v if num is None else (max if op == "max" else min)(num, v)
        else:
            seen[x.key] = x
    out = [seen[k] for k in sorted(seen)]
    if num is not None:
        if len(out) == 1 and num == 0 and out[0].op == "log":
            return log(minmax(op, [ONE, out[0].a[0]]))
        if not out:
            return const(num)
        out.append(const(num))
    if len(out) == 1:
        return out[0]
    ks = [kind(x) for x in out]
    ty = Ty("array", next((x.ty.elem for x in out if kind(x) == "array"), None)) if "array" in ks else \
        INT if all(k in ("int", "bool") for k in ks) else FLOAT if all(k in ("int", "float", "bool") for k in ks) else None
    return mk(op, tuple(out), ty=ty)


# ---------------------------------------------------------------------------- lifting through phi
def _nleaf(t):
    n = 0
    st = [t]
    while st:
        x = st.pop()
        if x.op == "phi":
            st += [x.a[1], x.a[2]]
        else:
            n += 1
            if n > MAXLEAF:
                return n
    return n


def _lift1(f, a):
    if a.op == "phi" and _nleaf(a) <= MAXLEAF:
        c, x, y = a.a
        return ite(c, f(x), f(y))
    return None


def _lift2(f, a, b):
    if a.op == "phi" or b.op == "phi":
        if _nleaf(a) * _nleaf(b) > MAXLEAF * 4:
            return None
        top = None
        for t in (a, b):
            if t.op == "phi" and (top is None or t.a[0].key < top.key):
                top = t.a[0]
        a1, a0 = cof(a, top)
        b1, b0 = cof(b, top)
        return ite(top, f(a1, b1), f(a0, b0))
    return None


def is_atom(t):
    """a boolean leaf that stands for the diagram phi(t, True, False)"""
    return t.ty is BOOL and t.op not in ("const", "phi")


def cof(t, c):
    """cofactors of decision diagram t wrt atomic condition c at the top"""
    if t.op != "phi" and t.key == c.key and is_atom(t):
        return TRUE, FALSE
    if t.op == "phi":
        if t.a[0] is c or t.a[0].key == c.key:
            return t.a[1], t.a[2]
        if t.a[0].key < c.key:
            x1, x0 = cof(t.a[1], c)
            y1, y0 = cof(t.a[2], c)
            return _node(t.a[0], x1, y1), _node(t.a[0], x0, y0)
    return t, t


def _node(c, a, b):
    if a is b or a.key == b.key:
        return a
    if a is TRUE and b is FALSE and c.ty is BOOL:
        return c
    d = _special(c, a, b)
    if d is not None:
        return d
    return mk("phi", c, a, b)


def _special(c, a, b):
    # phi(x<0, a, b) with a-b == -x -> max(a,b) ; a-b == x -> min(a,b)
    if c.op == "lt0" and b.op != "phi" and c.a[0].op == "poly":
        # without an extension, a path is its own root
        for f in find_ops(c.a[0], "splitext1"):
            if c.a[0].key == sub(length(f), ONE).key:
                r0 = mk("splitext0", f.a[0], ty=STR)
                if find_ops(b, "splitext0") and replace(a, {f.a[0]: r0}).key == b.key:
                    return b
    if c.op == "lt0" and a.op != "phi" and b.op != "phi":
        ka, kb = kind(a), kind(b)
        if ka in ("bool", "str", "none", "list", "dict", "set", "tuple") or kb in ("bool", "str", "none", "list", "dict", "set", "tuple"):
            return None
        if a.op in ("const", "poly", "log", "sym", "index", "len", "max", "min", "attr") and b.op in ("const", "poly", "log", "sym", "index", "len", "max", "min", "attr"):
            x = c.a[0]
            d = pos_multiple(sub(a, b), x)
            if d == -1:
                return minmax("max", [a, b])
            if d == 1:
                return minmax("min", [a, b])
            for p, q in ((a, b), (b, a)):
                if p.op == "log" and is_zero(q):
                    y = pos_multiple(sub(p.a[0], ONE), x)
                    # phi(X-1<0, 0, log X) -> max ; phi(1-X<0, log X, 0) -> max
                    if y is None:
                        continue
                    if (y == 1) == (p is b):
                        return minmax("max", [ZERO, p])
                    return minmax("min", [ZERO, p])
    return None


def pos_multiple(d, x):
    """+1 / -1 when d == l*x for a rational l > 0 / < 0, else None"""
    px, pd = as_poly(x), as_poly(d)
    for m, c in px.items():
        if m and m in pd:
            l = pd[m] / c
            if mul(const(l), x).key == d.key:
                return 1 if l > 0 else -1
            return None
    return None


def is_zero(t):
    return numval(t) == 0


_ite_memo = {}


def ite(c, a, b):
    if c.op == "const":
        return a if truthy_const(c) else b
    if a is b or a.key == b.key:
        return a
    k = (c.id, a.id, b.id)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    if c.op == "phi" or a.op == "phi" or b.op == "phi" or is_atom(a) or is_atom(b):
        tops = []
        for t in (c, a, b):
            if t.op == "phi":
                tops.append(t.a[0])
            elif is_atom(t):
                tops.append(t)
        if c.op != "phi":
            tops.append(c)
        top = min(tops, key=lambda t: t.key)
        if c.op == "phi":
            c1, c0 = cof(c, top)
        elif c.key == top.key:
            c1, c0 = TRUE, FALSE
        else:
            c1 = c0 = c
        a1, a0 = cof(a, top)
        b1, b0 = cof(b, top)
        if c.key == top.key and a1 is a and b1 is b:
            r = _node(c, a, b)
        else:
            r = _node(top, ite(c1, a1, b1), ite(c0, a0, b0))
    else:
        r = _node(c, a, b)
    _ite_memo[k] = r
    return r


def truthy_const(c):
    v = c.a[0]
    return bool(v)


def land(a, b):
    return ite(a, b, FALSE)


def lor(a, b):
    return ite(a, TRUE, b)


def lnot(a):
    return ite(a, FALSE, TRUE)


def conj(xs):
    r = TRUE
    for x in xs:
        r = land(r, x)
    return r


def restrict(t, assum):
    """simplify t knowing {atom key: bool}; only at the decision-diagram level and below"""
    if not assum:
        return t
    return subst_map(t, {}, assum)


def lt0(x):
    """x < 0"""
    r = _lift1(lt0, x)
    if r is not None:
        return r
    v = numval(x)
    if v is not None:
        return TRUE if v < 0 else FALSE
    k = x.ty
    if k is NAT:
        return FALSE
    # scale
    p = as_poly(x)
    items = sorted(p.items(), key=lambda mc: _mono_key(mc[0]))
    lead = next((c for m, c in items if m), Fraction(1))
    isint = k is not None and k.kind == "int"
    if isint:
        # divide by gcd of the non-constant coefficients
        from math import gcd
        g = 0
        for m, c in items:
            if m:
                g = gcd(g, abs(int(c)))
        if g > 1:
            q = {}
            for m, c in items:
                if m:
                    q[m] = c / g
                else:
                    import math
                    # sum(g*..)+c <0  <=> sum + c/g < 0 <=> sum + floor(c/g) + (c%g>0) ... ; sum < -c/g
                    q[m] = Fraction(-math.ceil(Fraction(-c, 1) / g))
            x = from_poly(q)
            return lt0(x)
        if lead < 0:
            return lnot(lt0(sub(neg(x), ONE)))
        # nat single atom: x - c < 0
    else:
        if lead not in (1, -1):
            x = from_poly({m: c / abs(lead) for m, c in items})
    if isint:
        # bounds: all atoms nat with nonneg coefficients
        lo = Fraction(0)
        ok = True
        for m, c in items:
            if not m:
                lo += c
            elif c > 0 and all(f.ty is NAT and e > 0 for f, e in m):
                if len(m) == 1 and _is_pos(m[0][0]):
                    lo += c
            else:
                ok = False
        if ok and lo >= 0:
            return FALSE
    return mk("lt0", x)


def _is_pos(t):
    """provably >= 1 (natural)"""
    if t.op == "len" and t.a[0].ty is not None and t.a[0].ty.nonempty:
        return True
    return False


def cmp(op, a, b):
    r = _lift2(lambda x, y: cmp(op, x, y), a, b)
    if r is not None:
        return r
    if op == "<":
        if kind(a) == "str" and kind(b) == "str" or kind(a) == "tuple":
            if a.key == b.key:
                return FALSE
            if a.op == "const" and b.op == "const" and isinstance(a.a[0], str) and isinstance(b.a[0], str):
                return TRUE if a.a[0] < b.a[0] else FALSE
            return mk("slt", a, b, ty=BOOL)
        return lt0(sub(a, b))
    if op == ">":
        return cmp("<", b, a)
    if op == "<=":
        return lnot(cmp("<", b, a))
    if op == ">=":
        return lnot(cmp("<", a, b))
    if op == "==":
        return eq(a, b)
    if op == "!=":
        return lnot(eq(a, b))
    raise AssertionError(op)


_DISJ = {"none", "str", "num", "list", "dict", "set", "tuple", "func", "bool", "path", "bytes"}


def _dk(t):
    k = kind(t)
    if k in ("int", "float"):
        return "num"
    if k == "bool":
        return "num"
    return k


def eq(a, b):
    r = _lift2(eq, a, b)
    if r is not None:
        return r
    if a is b or a.key == b.key:
        return TRUE
    if a.op == "const" and b.op == "const":
        return TRUE if a.a[0] == b.a[0] else FALSE
    if a.op == "fline" and b.op == "const" and not b.a[0] or b.op == "fline" and a.op == "const" and not a.a[0]:
        return lnot(truth(a if a.op == "fline" else b))
    ka, kb = _dk(a), _dk(b)
    if ka and kb and ka != kb and ka in _DISJ and kb in _DISJ:
        return FALSE
    if ka == "array" or kb == "array":
        return mk("aeq", *sorted((a, b), key=lambda t: t.key), ty=ARRAY)
    if kind(a) == "bool" and is_const(b) and isinstance(b.a[0], bool):
        return a if b.a[0] else lnot(a)
    if kind(b) == "bool" and is_const(a) and isinstance(a.a[0], bool):
        return eq(b, a)
    if ka == "num" and kb == "num":
        d = sub(a, b)
        if numval(d) is not None:
            return FALSE
        if d.ty is not None and d.ty.kind == "int":
            # n == 0 for natural n  <=> n - 1 < 0
            p = as_poly(d)
            cst = p.get((), Fraction(0))
            if cst == 0:
                if all(c > 0 and all(f.ty is NAT and e > 0 for f, e in m) for m, c in p.items()):
                    return lt0(sub(d, ONE))
                if all(c < 0 and all(f.ty is NAT and e > 0 for f, e in m) for m, c in p.items()):
                    return lt0(sub(neg(d), ONE))
            if all(c > 0 and all(f.ty is NAT and e > 0 for f, e in m) for m, c in p.items() if m) and cst > 0:
                return FALSE
            if all(c < 0 and all(f.ty is NAT and e > 0 for f, e in m) for m, c in p.items() if m) and cst < 0:
                return FALSE
        items = sorted(p_items(d), key=lambda mc: _mono_key(mc[0]))
        lead = next((c for m, c in items if m), Fraction(1))
        if lead < 0:
            d = neg(d)
        return mk("eq0", d, ty=BOOL)
    if a.op == "list" and b.op == "list" and len(a.a[0]) != len(b.a[0]):
        return FALSE
    for x, y in ((a, b), (b, a)):
        if kind(x) == "list" and y.op == "list" and not y.a[0]:
            return eq(length(x), ZERO)
    return mk("eq", *sorted((a, b), key=lambda t: t.key))


def p_items(t):
    return list(as_poly(t).items())


def is_(a, b):
    r = _lift2(is_, a, b)
    if r is not None:
        return r
    if a is b:
        return TRUE
    if a.op == "const" and b.op == "const":
        return TRUE if (a.a[0] is b.a[0]) or (a.a[0] == b.a[0] and type(a.a[0]) is type(b.a[0])) else FALSE
    for x, y in ((a, b), (b, a)):
        if y is NONEV and x.ty is not None and x.ty.kind != "none":
            return FALSE
        if y in (TRUE, FALSE) and x.ty is not None:
            if x.ty.kind == "bool":
                return x if y is TRUE else lnot(x)
            return FALSE
    return mk("is", *sorted((a, b), key=lambda t: t.key))


def nlines(f):
    """number of lines of a file"""
    return mk("nlines", f.a[0] if f.op == "file" else f, ty=NAT)


def lpos(f, i):
    """byte position of the start of line i of a file (of its end, for i the number of lines)"""
    return mk("lpos", f.a[0] if f.op == "file" else f, i, ty=NAT)


def truth(t):
    r = _lift1(truth, t)
    if r is not None:
        return r
    if t.op == "const":
        return TRUE if t.a[0] else FALSE
    k = kind(t)
    if k == "bool":
        return t
    if t.op == "fline":
        # the i-th line read from a file is empty exactly at the end of the file
        return lt0(sub(t.a[1], nlines(t.a[0])))
    if k in ("list", "str", "dict", "set", "tuple", "bytes"):
        return lnot(eq(length(t), ZERO))
    if k in ("int", "float"):
        return lnot(eq(t, ZERO))
    if k in ("func", "module", "obj", "file", "path"):
        return TRUE
    if k == "none":
        return FALSE
    return mk("truth", t)


# ---------------------------------------------------------------------------- sequences
def cat(parts):
    out = []
    for p in parts:
        if p.op == "cat":
            out.extend(p.a[0])
        else:
            out.append(p)
    res = []
    for p in out:
        if p.op == "const" and isinstance(p.a[0], str):
            if p.a[0] == "":
                continue
            if res and res[-1].op == "const":
                res[-1] = const(res[-1].a[0] + p.a[0])
                continue
        res.append(p)
    if not res:
        return const("")
    if len(res) == 1 and kind(res[0]) == "str":
        return res[0]
    return mk("cat", tuple(res))


def concat(a, b):
    r = _lift2(concat, a, b)
    if r is not None:
        return r
    if a.op == b.op and a.op in ("list", "tuple"):
        return mk(a.op, a.a[0] + b.a[0])
    parts = []
    for x in (a, b):
        if x.op == "concat_l":
            parts.extend(x.a[0])
        else:
            parts.append(x)
    res = []
    for p in parts:
        if p.op == "list" and not p.a[0]:
            continue
        if p.op == "list" and res and res[-1].op == "list":
            res[-1] = mk("list", res[-1].a[0] + p.a[0])
            continue
        if p.op == "comp" and p.a[1] is TRUE and res and res[-1].op == "list" and len(res[-1].a[0]) == 1:
            # [f(0)] + [f(1 + h) for h in range(n)] -> [f(h) for h in range(n + 1)]
            N, (_, body), v = open_binder(p)
            if v.a[0] in body.fv and body.op not in ("phi", "list", "tuple", "dict"):
                g = subst(body, {v.a[0]: sub(v, ONE)})
                if subst(g, {v.a[0]: ZERO}).key == res[-1].a[0][0].key:
                    res[-1] = comp(add(N, ONE), TRUE, g, v)
                    continue
        res.append(p)
    if not res:
        return mk("list", ())
    if len(res) == 1:
        return res[0]
    return mk("concat_l", tuple(res))


def tlist(xs):
    return mk("list", tuple(xs))


def ttuple(xs):
    return mk("tuple", tuple(xs))


def length(t):
    r = _lift1(length, t)
    if r is not None:
        return r
    op, a = t.op, t.a
    if op in ("list", "tuple", "set"):
        if op != "set":
            return const(len(a[0]))
    if op == "const" and isinstance(a[0], (str, bytes)):
        return const(len(a[0]))
    if op == "comp":
        if a[1] is TRUE:
            return a[0]
        return sumc(a[0], a[1], ONE, a[3])
    if op == "concat_l":
        r = ZERO
        for x in a[0]:
            r = add(r, length(x))
        return r
    if op in ("values", "items"):
        return length(a[0])
    if op == "keys":
        return mk("len", a[0])
    if op in ("sadd", "mkdict") and kind(t) == "dict":
        ks = keys_(t)
        if not (ks.op == "keys" and ks.a[0] is t):
            return length(ks)
    if op == "counter":
        return length(setseq_hook[0](a[0])) if False else mk("len", t)
    if kind(t) == "set" and op in ("mkset", "sinter", "sdiff", "sym", "attr"):
        return mk("len", SETSEQ[0](t))
    if op == "dict" and not a[0]:
        return ZERO
    if op == "dict" and keys_(t).op == "list":
        return const(len(a[0]))
    if op == "setitem" and kind(t) == "dict":
        r = _len_memo.get(t.id)
        if r is None:
            r = _len_memo[t.id] = add(length(a[0]), ite(CONTAINS[0](a[1], a[0]), ZERO, ONE))
        return r
    if op in ("cast", "arr", "flip", "argsort", "copy_list", "sorted", "perm", "store_arr", "setitem", "argpart", "fullargsort", "narrow", "sortarr"):
        return length(a[0])
    if op == "npf" and kind(t) == "array":
        return length(a[1])
    if op in ("min", "max") and kind(t) == "array":
        for x in a[0]:
            if kind(x) == "array":
                return length(x)
    if op == "enum":
        return length(a[0])
    if op == "range":
        if is_zero(a[0]):
            return a[1] if a[1].ty is NAT else mk("max", (a[1], ZERO), ty=NAT) if a[1].ty is not None else a[1]
        return sub(a[1], a[0])
    if op in ("zeros", "empty_arr", "ones", "full"):
        s = a[0]
        if s.op == "tuple":
            return s.a[0][0] if s.a[0] else ZERO
        if kind(s) == "int":
            return s
    if op == "sadd":
        return length(a[0])
    if op == "gather":
        return length(a[1])
    if op == "offs":
        return add(length(a[0]), ONE)
    if op == "topk_idx":
        return a[1]
    if op == "slice":
        b, lo, hi, st = a
        if is_const(st, None):
            n = None
            l = ZERO if is_const(lo, None) else lo
            if is_const(hi, None):
                if numval(l) is not None and numval(l) < 0:
                    pass
                elif numval(l) is not None:
                    pass
            elif (kind(l) == "int" and kind(hi) == "int" or True) and not _negc(l) and not _negc(hi):
                d = sub(hi, l)
                if numval(d) is not None or b.op in ("sym", "attr", "index"):
                    return d
    if op == "poly" and kind(t) == "array":
        ls = {}
        for c, m in a[0]:
            for f, e in m:
                if kind(f) == "array":
                    n = length(f)
                    ls[n.key] = n
        if ls:      # all equal: the same one is named whatever the order of the factors
            return ls[min(ls, key=lambda k_: (ls[k_].op == "len", k_))]
    if op == "log" and kind(t) == "array":
        return length(a[0])
    return mk("len", t)


def _negc(t):
    v = numval(t)
    return v is not None and v < 0


def index(t, i):
    if t.op == "phi" or i.op == "phi":
        r = _lift2(index, t, i)
        if r is not None:
            return r
    if kind(t) == "set":
        return index(SETSEQ[0](t), i)
    if i.op == "toint" and i.a[0].op == "index" and kind(t) != "dict":
        i = i.a[0]      # only whole numbers are positions
    op, a = t.op, t.a
    n = numval(i)
    isint = n is not None and n.denominator == 1
    if op == "attr" and a[1] == "shape" and isint and n == 0 and kind(a[0]) == "array":
        return length(a[0])
    if op in ("list", "tuple") and isint:
        n = int(n)
        if -len(a[0]) <= n < len(a[0]):
            return a[0][n]
        return mk("unk", "index-out-of-range")
    if op == "comp" and a[1] is TRUE and (kind(i) == "int"):
        if isint and n < 0:
            return instantiate(a[2], a[3], add(a[0], i))
        return instantiate(a[2], a[3], i)
    if op == "range" and kind(i) == "int":
        if not (isint and n < 0):
            return add(a[0], i)
    if op == "enum" and kind(i) == "int":
        return ttuple([add(a[1], i), index(a[0], i)])
    if op == "zipn" and kind(i) == "int":
        return ttuple([index(x, i) for x in a[0]])
    if op == "items" and kind(i) == "int":
        d = a[0]
        k = index(keys_(d), i)
        return ttuple([k, index(d, k)])
    if op == "delitem" and kind(t) == "dict" and a[1].op == "const" and i.op == "const" and a[1].key != i.key:
        return index(a[0], i)
    if op == "setitem" and a[1].key == i.key:
        return a[2]
    if op == "setitem" and a[1].op == "const" and i.op == "const":
        return index(a[0], i)
    if op == "setitem" and kind(t) == "dict":
        c = eq(a[1], i)
        if c is TRUE:
            return a[2]
        if c is FALSE:
            return index(a[0], i)
    if op == "dict":
        for k, v in reversed(a[0]):
            c = eq(k, i)
            if c is TRUE:
                return v
            if c is not FALSE:
                break
        else:
            pass
    if op == "arr" or op == "copy_list":
        return index(a[0], i)
    if op == "sinkview":
        return index(a[0], i)
    if op == "slice" and kind(i) == "int" and not isint or op == "slice" and isint and n >= 0:
        b, lo, hi, st = a
        if is_const(st, None):
            l = ZERO if is_const(lo, None) else lo
            if not _negc(l):
                return index(b, add(l, i))
    if op == "gather":
        return index(a[0], index(a[1], i))
    if op in ("min", "max") and kind(t) == "array" and kind(i) == "int":
        return minmax(op, [index(x, i) if kind(x) == "array" else x for x in a[0]])
    if op == "npf" and kind(t) == "array" and kind(i) == "int" and kind(a[1]) == "array":
        return mk("npf", a[0], index(a[1], i), *a[2:])
    if op in ("zeros",) and kind(i) == "int" and a[0].op != "tuple":
        return ZERO
    if op == "poly" and kind(t) == "array" and t.ty.elem is not None and kind(i) == "int":
        return ELEM_OF[0](t, i)
    if kind(i) == "slice":
        if i.op == "sliceobj":
            return slice_(t, *i.a)
        if kind(t) == "list":
            v = fresh("s")
            R = srange(i, length(t))
            return comp(length(R), TRUE, index(t, index(R, v)), v)
    if kind(t) in ("array",) and kind(i) == "array":
        return gather(t, i)
    if kind(i) == "list" and kind(t) == "array":
        return gather(t, i)
    r = _index_container(t, i)
    if r is not None:
        return r
    if op == "attr" and i.op == "const":
        ty = ITEM_TYPES.get((a[1], i.a[0]))
        if ty is not None:
            return mk("index", t, i, ty=ty)
    return mk("index", t, i)


ITEM_TYPES = {}


def keys_(d):
    """the keys of a dictionary, in iteration order"""
    if d.op == "phi":
        r = _lift1(keys_, d)
        if r is not None:
            return r
    if d.op == "sadd":
        return keys_(d.a[0])
    if d.op == "keys":
        return d
    if d.op == "dict":
        ks = [k for k, _ in d.a[0]]
        if all(k.op == "const" for k in ks):
            if len({k.key for k in ks}) == len(ks):
                return tlist(ks)
        elif all(eq(ks[i], ks[j]) is FALSE for i in range(len(ks)) for j in range(i)):
            return tlist(ks)
    if d.op == "setitem" and kind(d) == "dict":
        c = CONTAINS[0](d.a[1], d.a[0])
        if c is TRUE:
            return keys_(d.a[0])
        if c is FALSE:
            return CONCAT[0](keys_(d.a[0]), tlist([d.a[1]]))
    if d.op == "mkdict":
        p = d.a[0]
        if p.op == "comp" and p.a[1] is TRUE and p.a[2].op == "tuple":
            k = p.a[2].a[0][0]
            if k.op == "index" and k.a[0].op in ("setseq", "keys") and k.a[1].op == "lv" and k.a[1].a[0] == p.a[3] \
                    and length(k.a[0]).key == p.a[0].key:
                return k.a[0]
            if k.op == "lv" and k.a[0] == p.a[3]:
                return mk("range", ZERO, p.a[0], ty=Ty("list", NAT))
    return mk("keys", d)


def values_(d):
    if d.op == "phi":
        r = _lift1(values_, d)
        if r is not None:
            return r
    if d.op == "dict":
        ks = keys_(d)
        if ks.op == "list":
            return tlist([v for _, v in d.a[0]])
    if d.op == "setitem" and kind(d) == "dict" and CONTAINS[0](d.a[1], d.a[0]) is FALSE:
        return concat(values_(d.a[0]), tlist([d.a[2]]))
    return mk("values", d)


def distinct_index(k, var):
    """k == S[var] with S a sequence of distinct elements -> S"""
    if k.op == "index" and k.a[0].op in ("setseq", "keys") and k.a[1] is var and var.a[0] not in k.a[0].fv:
        return k.a[0]
    return None


def abstract(t, k, q, var):
    """t with the distinct key k replaced by q; None when t still depends on the position var"""
    r = subst_map(t, {}, None, {k.id: q})
    return None if var.a[0] in r.fv else r


MEMBER = [None]
ELEM_OF = [None]
CONTAINS = [None]
CONCAT = [None]
SETSEQ = [None]


def _index_container(t, i):
    op, a = t.op, t.a
    if op == "values" and kind(i) == "int":
        return index(a[0], index(keys_(a[0]), i))
    if op == "mkdict" and a[0].op == "comp":
        N, (c, b), v = open_binder(a[0])
        if b.op == "tuple" and c is TRUE:
            k, val = b.a[0]
            S = distinct_index(k, v)
            if S is not None:
                r = abstract(val, k, i, v)
                if r is not None:
                    return r
                if i.op == "index" and i.a[0].key == S.key and N.key == length(S).key:
                    return subst(val, {v.a[0]: i.a[1]})
            elif k is v and val.op != "unk":
                return subst(val, {v.a[0]: i})
    if op == "scatter":
        base, K, V = a
        if K.op == "comp" and V.op == "comp" and K.a[0].key == V.a[0].key and K.a[1].key == V.a[1].key or \
                K.op == "comp" and V.op == "list" and False:
            N, (c, k), v = open_binder(K)
            val = subst(V.a[2], {V.a[3]: v})
            S = distinct_index(k, v)
            if S is not None:
                r, rc = abstract(val, k, i, v), abstract(c, k, i, v)
                if r is not None and rc is not None:
                    m = MEMBER[0](i, S)
                    return ite(land(m, rc), r, index(base, i))
        elif K.op in ("setseq", "keys", "range") and V.op == "comp" and V.a[1] is TRUE and V.a[0].key == length(K).key:
            N, (c, val), v = open_binder(V)
            k = index(K, v)
            S = distinct_index(k, v)
            if S is not None:
                r = abstract(val, k, i, v)
                if r is not None:
                    return ite(MEMBER[0](i, S), r, index(base, i))
    if op == "sadd" and kind(i) == "int" or op == "sadd" and kind(t) == "dict":
        n = count_sum(a[1], a[2], i)
        if n is not None:
            return add(index(a[0], i), n)
    if op in ("filled",) and a[0].op in ("zeros", "empty_arr"):
        return index(a[1], i)
    return None


def count_sum(idx, val, q):
    """sum of val over the positions where idx == q, when val is the constant one throughout"""
    if not _ones(val):
        return None
    return count_occ(idx, q)


def _ones(v):
    if is_const(v, 1):
        return True
    if v.op == "list":
        return all(_ones(x) for x in v.a[0])
    if v.op == "comp":
        return _ones(v.a[2])
    if v.op in ("flat", "arr"):
        return _ones(v.a[0])
    return False


def count_occ(idx, q):
    if idx.op == "phi":
        a, b = count_occ(idx.a[1], q), count_occ(idx.a[2], q)
        return None if a is None or b is None else ite(idx.a[0], a, b)
    if idx.op in ("arr",):
        return count_occ(idx.a[0], q)
    if idx.op == "list":
        r = ZERO
        for x in idx.a[0]:
            r = add(r, ite(eq(x, q), ONE, ZERO))
        return r
    if idx.op == "flat" and idx.a[0].op == "comp":
        N, (c, b), v = open_binder(idx.a[0])
        inner = count_occ(b, q)
        return None if inner is None else sumc(N, c, inner, v)
    if idx.op in ("setseq", "keys"):
        return ite(MEMBER[0](q, idx), ONE, ZERO)
    if idx.op == "comp":
        N, (c, b), v = open_binder(idx)
        S = distinct_index(b, v)
        if S is not None:
            rc = abstract(c, b, q, v)
            if rc is not None:
                return ite(land(rc, MEMBER[0](q, S)), ONE, ZERO)
    return index(mk("counter", idx, ty=Ty("dict", NAT)), q)


def gather(t, idx):
    """array fancy indexing"""
    r = _lift2(gather, t, idx)
    if r is not None:
        return r
    if t.op == "gather":
        return gather(t.a[0], gather(t.a[1], idx))
    if t.op == "arr":
        return gather(t.a[0], idx)
    if idx.op in ("arr",):
        return gather(t, idx.a[0])
    if t.op == "poly" and kind(t) == "array" and len(t.a[0]) == 1 and len(t.a[0][0][1]) == 1:
        c, ((f, e),) = t.a[0][0]
        if e == 1 and kind(f) == "array":
            return mul(const(c), gather(f, idx))
    return mk("gather", t, idx)


def slice_(t, lo, hi, st=NONEV):
    if any(x.op == "phi" for x in (t, lo, hi)):
        if t.op == "phi":
            r = _lift1(lambda x: slice_(x, lo, hi, st), t)
            if r is not None:
                return r
        if lo.op == "phi":
            r = _lift1(lambda x: slice_(t, x, hi, st), lo)
            if r is not None:
                return r
        if hi.op == "phi":
            r = _lift1(lambda x: slice_(t, lo, x, st), hi)
            if r is not None:
                return r
    if is_const(st, 1):
        st = NONEV
    if not is_const(lo, None) and is_zero(lo):
        lo = NONEV
    if is_const(st, None) and is_const(lo, None) and is_const(hi, None):
        return t if kind(t) != "list" else t
    if is_const(st, None) and t.op in ("list", "tuple"):
        l = 0 if is_const(lo, None) else numval(lo)
        h = len(t.a[0]) if is_const(hi, None) else numval(hi)
        if l is not None and h is not None:
            return mk(t.op, t.a[0][int(l):int(h)])
    if is_const(st, -1) and is_const(lo, None) and is_const(hi, None):
        return flip(t)
    if is_const(st, None) and t.op == "arr":
        return _asarr(slice_(t.a[0], lo, hi, st))
    if is_const(st, None) and not is_const(hi, None):
        if is_const(lo, None) and kind(t) == "str":
            x = mk("splitext1", t, ty=STR)
            if hi.key in (neg(length(x)).key, sub(length(t), length(x)).key):
                # (an empty extension leaves nothing under the first form)
                r0 = mk("splitext0", t, ty=STR)
                if hi.key == sub(length(t), length(x)).key:
                    return r0
                return ite(truth(x), r0, const(""))
        # t[:len(t)] == t ; normalise hi == len(t)
        if hi.key == length(t).key:
            return slice_(t, lo, NONEV, st)
    if t.op == "comp" and t.a[1] is TRUE and is_const(st, None) and is_const(lo, None) and _negc(hi):
        n = add(t.a[0], hi)
        if n.ty is NAT:
            N, (_, body), v = open_binder(t)
            return comp(n, TRUE, body, v)
    if t.op == "gather" and t.a[0] is not None:
        return gather(t.a[0], slice_(t.a[1], lo, hi, st))
    if t.op == "argsort" and is_const(st, None) and is_const(hi, None) and lo.op != "const":
        # argsort(s)[-k:]
        k = neg(lo)
        return mk("topk_sorted_asc", t.a[0], k, ty=ARRAY)
    if t.op == "flat" and is_const(st, None):
        # flat(Q)[offs[i] : offs[i+1]] -> Q[i]
        l = ZERO if is_const(lo, None) else lo
        r = _flat_piece(t, l, hi)
        if r is not None:
            return r
    if t.op == "concat_l" and is_const(st, None):
        r = _concat_piece(t, lo, hi)
        if r is not None:
            return r
    if t.op == "slice" and is_const(st, None) and is_const(t.a[3], None):
        b, l0, h0, _ = t.a
        l0 = ZERO if is_const(l0, None) else l0
        if not _negc(l0) and not is_const(hi, None) and not _negc(hi) and not is_const(lo, None) and not _negc(lo):
            return slice_(b, add(l0, lo), add(l0, hi), st)
    return mk("slice", t, lo, hi, st)


def _concat_piece(t, lo, hi):
    """whole pieces of a concatenation: cut at the sums of the lengths"""
    ps = t.a[0]
    l = ZERO if is_const(lo, None) else lo
    at, cuts = ZERO, [ZERO]
    for p in ps:
        at = add(at, length(p))
        cuts.append(at)
    keys = [c.key for c in cuts]
    if l.key not in keys:
        return None
    i = keys.index(l.key)
    if is_const(hi, None):
        j = len(ps)
    elif hi.key in keys[i:]:
        j = i + keys[i:].index(hi.key)
    else:
        return None
    if i == 0 and j == len(ps):
        return t
    r = tlist([])
    for p in ps[i:j]:
        r = concat(r, p)
    return r


def _asarr(r):
    if r.op == "phi":
        return ite(r.a[0], _asarr(r.a[1]), _asarr(r.a[2]))
    if kind(r) == "array":
        return r
    return mk("arr", r, ty=Ty("array", r.ty.elem if r.ty is not None else None))


def _flat_piece(t, lo, hi):
    q = t.a[0]
    for x in (lo,):
        if x.op == "index" and x.a[0].op == "offs" and hi.op == "index" and hi.a[0].key == x.a[0].key:
            i = x.a[1]
            if sub(hi.a[1], i).key == ONE.key:
                lens = x.a[0].a[0]
                v = fresh()
                want = comp(length(q), TRUE, length(index(q, v)), v)
                if want.key == lens.key:
                    return index(q, i)
    return None


def flip(t):
    r = _lift1(flip, t)
    if r is not None:
        return r
    if t.op == "flip":
        return t.a[0]
    if t.op == "gather":
        return gather(t.a[0], flip(t.a[1]))
    return mk("flip", t)


def flat(q):
    """concatenate the elements of sequence q"""
    r = _lift1(flat, q)
    if r is not None:
        return r
    if q.op in ("list", "tuple"):
        r = tlist([])
        for x in q.a[0]:
            if x.op == "arr":
                x = x.a[0]
            if kind(x) not in ("list",) and x.op not in ("comp", "list", "flat"):
                return mk("flat", q)
            r = concat(r, x)
        return r
    return mk("flat", q)


# ---------------------------------------------------------------------------- binders
def binder_height(*ts):
    h = -1
    seen = set()
    st = list(ts)
    while st:
        t = st.pop()
        if isinstance(t, tuple):
            st.extend(t)
            continue
        if not isinstance(t, T) or t.id in seen:
            continue
        seen.add(t.id)
        bh = _bh.get(t.id)
        if bh is not None:
            h = max(h, bh)
            continue
        st.extend(t.a)
    return h


_bh = {}
BINDERS = ("comp", "sumc", "anyc", "firstc", "lastc", "foldc", "mkfold")


def _full_height(t):
    r = _fh.get(t.id)
    if r is not None:
        return r
    if not t.a:
        r = -1
    else:
        r = -1
        st = list(t.a)
        while st:
            x = st.pop()
            if isinstance(x, tuple):
                st.extend(x)
            elif isinstance(x, T):
                r = max(r, _full_height(x))
        if t.op in BINDERS:
            nm = t.a[-1]
            r = max(r, int(nm[1:]))
    _fh[t.id] = r
    return r


_fh = {}


def _close(var, *parts):
    """replace fresh lv var by canonical height name in parts; return (parts, name)"""
    name = var.a[0]
    if not any(name in p.fv for p in parts):
        return parts, "h0"
    h = max([_full_height(p) for p in parts] + [-1]) + 1
    # avoid capturing an outer canonical variable of the same height that is free here
    free = set()
    for p in parts:
        free |= p.fv
    while "h%d" % h in free:
        h += 1
    new = lvh(h)
    return tuple(subst(p, {name: new}) for p in parts), "h%d" % h


def _unb(t, name):
    return frozenset(x for x in t.fv if x != name)


def mkbind(op, N, parts, var, extra=(), ty=None):
    parts, name = _close(var, *parts)
    fv = set(N.fv)
    for p in parts:
        fv |= p.fv
    fv.discard(name)
    ex = set()
    for e in extra:
        _fv(e, ex)
    fv |= ex
    return mk(op, N, *parts, *extra, name, fv=frozenset(fv), ty=ty)


def _hoist(op_f, N, cond, body, var):
    """unswitch loop-invariant conditions out of binders"""
    for part in (cond, body):
        st = [part]
        while st:
            x = st.pop()
            inv_atom = part is cond and is_atom(x) and var.a[0] not in x.fv
            if x.op == "phi" or inv_atom:
                if inv_atom or var.a[0] not in x.a[0].fv:
                    c = x if inv_atom else x.a[0]
                    c1, c0 = cof_any(cond, c)
                    b1, b0 = cof_any(body, c)
                    return ite(c, op_f(N, c1, b1, var), op_f(N, c0, b0, var))
                if x.op == "phi":
                    st += [x.a[1], x.a[2]]
    return None


def cof_any(t, c):
    """cofactors wrt c anywhere in the decision diagram"""
    if t.op != "phi":
        return (TRUE, FALSE) if t.key == c.key else (t, t)
    if t.a[0].key == c.key:
        return t.a[1], t.a[2]
    x1, x0 = cof_any(t.a[1], c)
    y1, y0 = cof_any(t.a[2], c)
    return ite(t.a[0], x1, y1), ite(t.a[0], x0, y0)


def _fuse(N, parts, var):
    """a binder over the indices of a filtered comprehension S whose only use of the index is S[i]:
    iterate over the domain of S directly"""
    if N.op not in ("sumc", "len", "poly"):
        return None
    seen = set()
    st = list(parts)
    S = None
    while st and S is None:
        x = st.pop()
        if isinstance(x, tuple):
            st += list(x)
            continue
        if not isinstance(x, T) or x.id in seen or var.a[0] not in x.fv:
            continue
        seen.add(x.id)
        if x.op == "index" and x.a[1] is var and x.a[0].op == "comp" and x.a[0].a[1] is not TRUE and length(x.a[0]).key == N.key:
            S = x.a[0]
        elif x.op == "index" and x.a[1] is var and x.a[0].op == "arr" and x.a[0].a[0].op == "comp" and x.a[0].a[0].a[1] is not TRUE and length(x.a[0]).key == N.key:
            S = x.a[0]
        else:
            st += list(x.a)
    if S is None:
        return None
    C = S.a[0] if S.op == "arr" else S
    N2, (c2, b2), w = open_binder(C)
    r = mk("index", S, var)
    out = [subst_map(p, {}, None, {r.id: b2}) for p in parts]
    if any(var.a[0] in p.fv for p in out):
        return None
    return N2, c2, out, w


def srange(sl, n):
    """the positions that a slice object selects in a sequence of length n"""
    return mk("srange", sl, n, ty=Ty("list", NAT))


def comp(N, cond, body, var):
    """[body for var in range(N) if cond]"""
    fz = _fuse(N, (cond, body), var)
    if fz is not None:
        return comp(fz[0], land(fz[1], fz[2][0]), fz[2][1], fz[3])
    if N.op == "phi":
        r = _lift1(lambda n: comp(n, cond, body, var), N)
        if r is not None:
            return r
    if cond is FALSE:
        return tlist([])
    if is_zero(N):
        return tlist([])
    r = _hoist(comp, N, cond, body, var)
    if r is not None:
        return r
    n = numval(N)
    if n is not None and cond is TRUE and n.denominator == 1 and 0 < n <= 8:
        return tlist([subst(body, {var.a[0]: const(i)}) for i in range(int(n))])
    # eta: comp(len(X), X[var]) -> X
    if cond is TRUE and body.op == "index" and body.a[1] is var and var.a[0] not in body.a[0].fv:
        X = body.a[0]
        if length(X).key == N.key and kind(X) in ("list", "array", None, "tuple"):
            return seq_copy(X)
        # slice eta: comp(e - s, X[s+v])
    if cond is TRUE and body.op == "index":
        X, ix = body.a
        if var.a[0] not in X.fv and ix.op == "poly":
            off = sub(ix, var)
            if var.a[0] not in off.fv and X.op in ("sym", "attr", "index", "arr") and off.op != "const":
                return slice_(X, off, add(off, N))
    if cond is TRUE and body.op == "index" and body.a[0].op not in ("list",) and var.a[0] not in body.a[0].fv:
        # gather: [X[I[v]] for v]
        ix = body.a[1]
        if ix.op == "index" and ix.a[1] is var and var.a[0] not in ix.a[0].fv:
            I = ix.a[0]
            if length(I).key == N.key and (kind(I) == "array" or I.op in ("slice", "flatten")):
                return gather(body.a[0], I)
    if cond is TRUE and body.op == "tuple" and False:
        pass
    return mkbind("comp", N, (cond, body), var)


def seq_copy(X):
    return X


def sumc(N, cond, body, var):
    if not isinstance(var, T):
        # canonical name given: open it
        nv = fresh()
        cond = subst(cond, {var: nv})
        body = subst(body, {var: nv})
        var = nv
    if N.op == "phi":
        r = _lift1(lambda n: sumc(n, cond, body, var), N)
        if r is not None:
            return r
    if cond is FALSE or is_zero(N) or is_zero(body):
        return ZERO
    fz = _fuse(N, (cond, body), var)
    if fz is not None:
        return sumc(fz[0], land(fz[1], fz[2][0]), fz[2][1], fz[3])
    n = numval(N)
    if n is not None and n.denominator == 1 and 0 < n <= 8:
        r = ZERO
        for i in range(int(n)):
            m = {var.a[0]: const(i)}
            r = add(r, ite(subst(cond, m), subst(body, m), ZERO))
        return r
    r = _hoist(sumc, N, cond, body, var)
    if r is not None:
        return r
    name = var.a[0]
    if body.op == "phi" and not _has_phi_in(body):
        pass
    # boolean body: sum(c) == count
    if kind(body) == "bool" and body.op != "const":
        return sumc(N, land(cond, body), ONE, var)
    # phi(c, x, 0) -> guard
    if body.op == "phi":
        c, x, y = body.a
        if is_zero(y):
            return sumc(N, land(cond, c), x, var)
        if is_zero(x):
            return sumc(N, land(cond, lnot(c)), y, var)
    if body.op == "poly" and kind(body) != "array" or (body.op == "poly"):
        total = ZERO
        for c, m in body.a[0]:
            inn = tuple((f, e) for f, e in m if name in f.fv)
            out = tuple((f, e) for f, e in m if name not in f.fv)
            inner = from_poly({inn: Fraction(1)})
            total = add(total, mul(from_poly({out: c}), _sum1(N, cond, inner, var)))
        return total
    return _sum1(N, cond, body, var)


def _has_phi_in(t):
    return False


def _sum1(N, cond, body, var):
    name = var.a[0]
    if name not in body.fv:
        if cond is TRUE:
            return mul(body, N)
        if not is_const(body, 1):
            return mul(body, _sum1(N, cond, ONE, var))
    # sum of len of element of flat...
    return mkbind("sumc", N, (cond, body), var)


def anyc(N, cond, var):
    """exists var in range(N): cond"""
    if cond is FALSE or is_zero(N):
        return FALSE
    if N.op == "phi":
        r = _lift1(lambda n: anyc(n, cond, var), N)
        if r is not None:
            return r
    if var.a[0] not in cond.fv:
        return land(cond, lnot(eq(N, ZERO)))
    fz = _fuse(N, (cond,), var)
    if fz is not None:
        return anyc(fz[0], land(fz[1], fz[2][0]), fz[3])
    n = numval(N)
    if n is not None and n.denominator == 1 and 0 < n <= 8:
        r = FALSE
        for i in range(int(n)):
            r = lor(r, subst(cond, {var.a[0]: const(i)}))
        return r
    # hoist invariants
    st = [cond]
    while st:
        x = st.pop()
        if is_atom(x) and var.a[0] not in x.fv:
            c1, c0 = cof_any(cond, x)
            return ite(x, anyc(N, c1, var), anyc(N, c0, var))
        if x.op == "phi":
            if var.a[0] not in x.a[0].fv:
                c1, c0 = cof_any(cond, x.a[0])
                return ite(x.a[0], anyc(N, c1, var), anyc(N, c0, var))
            st += [x.a[1], x.a[2]]
    return mkbind("anyc", N, (cond,), var, ty=BOOL)


def open_binder(t):
    """-> (N, parts..., var) with a fresh variable"""
    name = t.a[-1]
    v = fresh()
    m = {name: v}
    return t.a[0], tuple(subst(p, m) if isinstance(p, T) else p for p in t.a[1:-1]), v


def instantiate(body, name, val):
    return subst(body, {name: val})


# ---------------------------------------------------------------------------- substitution
def subst(t, m):
    """m: lv name -> term"""
    if not m:
        return t
    return subst_map(t, m, None)


def subst_map(t, m, assum=None, tm=None, memo=None):
    """substitute lv names (m), assume atoms (assum: key->bool), replace terms (tm: id->term)"""
    if memo is None:
        memo = {}
    names = set(m)

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if not assum and not tm and not (x.fv & names):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        r = go1(x)
        memo[x.id] = r
        return r

    def go1(x):
        if tm is not None:
            y = tm.get(x.id)
            if y is not None:
                return y
        if x.op == "lv":
            return m.get(x.a[0], x)
        if x.op == "phi":
            c = x.a[0]
            if assum is not None:
                v = assum.get(c.key)
                if v is not None:
                    return go(x.a[1]) if v else go(x.a[2])
            c2 = go(c)
            return ite(c2, go(x.a[1]), go(x.a[2]))
        if assum is not None and x.ty is BOOL:
            v = assum.get(x.key)
            if v is not None:
                return TRUE if v else FALSE
        if not x.a or x.op in ("const", "sym", "func", "ext", "class", "module", "builtin"):
            return x
        if x.op in BINDERS:
            N, parts, v = open_binder(x)
            # open_binder made fresh var: substitute inside
            mm = {k: y for k, y in m.items()}
            parts2 = tuple(subst_map(p, mm, assum, tm) if isinstance(p, T) else (tuple(subst_map(q, mm, assum, tm) if isinstance(q, T) else q for q in p) if isinstance(p, tuple) else p) for p in parts)
            return rebind(x.op, go(N), parts2, v, x)
        return rebuild(x, tuple(go(y) for y in x.a))

    return go(t)


def rebind(op, N, parts, v, orig):
    if op == "comp":
        return comp(N, parts[0], parts[1], v)
    if op == "sumc":
        return sumc(N, parts[0], parts[1], v)
    if op == "anyc":
        return anyc(N, parts[0], v)
    if op == "firstc":
        return mkbind("firstc", N, parts, v)
    if op == "lastc":
        return mkbind("lastc", N, parts, v)
    if op == "foldc":
        return fold(N, parts[0], parts[1], parts[2], parts[3], v)
    raise AssertionError(op)


def fold(N, guard, which, inits, nexts, var):
    """opaque recurrence; muv(i) placeholders inside nexts"""
    parts = (guard,) + tuple(nexts)
    parts, name = _close(var, *parts)
    fv = set(N.fv)
    for p in parts:
        fv |= p.fv
    fv.discard(name)
    _fv(inits, fv)
    return mk("foldc", N, parts[0], which, tuple(inits), tuple(parts[1:]), name, fv=frozenset(fv),
              ty=inits[which].ty if which < len(inits) else None)


REBUILD = {}


def rebuild(x, a):
    if a == x.a or all(p is q for p, q in zip(a, x.a)):
        return x
    op = x.op
    f = REBUILD.get(op)
    if f is not None:
        return f(*a)
    if op == "poly":
        r = ZERO
        for c, m in x.a[0]:
            pass
        # a[0] is tuple of (coef, mono) with terms substituted
        for c, m in a[0]:
            t = const(c)
            for f_, e in m:
                t = mul(t, power(f_, e))
            r = add(r, t)
        return r
    return mk(op, *a, ty=x.ty if op in ("call", "meth", "attr") else None)


def _rb_minmax(op):
    return lambda xs: minmax(op, list(xs))


def copy_of(x):
    """another object with the value x (a copy made in one iteration of a loop)"""
    return mk("fresh", x, ty=x.ty) if x.op in ("sym", "attr", "index") else x


REBUILD.update({
    "fresh": copy_of, "index": index, "len": length, "slice": slice_, "gather": gather, "flip": flip, "flat": flat,
    "log": log, "lt0": lt0, "eq": eq, "is": is_, "truth": truth,
    "eq0": lambda d: eq_zero(d),
    "max": _rb_minmax("max"), "min": _rb_minmax("min"),
    "cat": lambda ps: cat(list(ps)),
    "concat_l": lambda ps: _concat_many(ps),
    "keys": lambda d: keys_(d), "values": lambda d: values_(d), "list": lambda xs: mk("list", xs), "tuple": lambda xs: mk("tuple", xs),
})


def _concat_many(ps):
    r = tlist([])
    for p in ps:
        r = concat(r, p)
    return r


def eq_zero(d):
    v = numval(d)
    if v is not None:
        return TRUE if v == 0 else FALSE
    p = as_poly(d)
    # split into two sides for eq()
    return eq(d, ZERO)


# ---------------------------------------------------------------------------- queries
def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(x.a)


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def find_ops(t, *ops):
    return [x for x in subterms(t) if x.op in ops]


def atoms_of(t):
    """atomic conditions at the decision-diagram level"""
    out = {}
    st = [t]
    while st:
        x = st.pop()
        if is_atom(x):
            out[x.key] = x
        if x.op == "phi":
            out[x.a[0].key] = x.a[0]
            st += [x.a[1], x.a[2]]
    return list(out.values())


def leaves(t, pc=()):
    """[(literals, leaf)] of the decision diagram"""
    if t.op == "phi":
        c, a, b = t.a
        return leaves(a, pc + ((c, True),)) + leaves(b, pc + ((c, False),))
    return [(pc, t)]


def implied_literals(c):
    """atoms whose value is forced when c is true: {key: (atom, bool)}"""
    out = {}
    if c.op == "const":
        return out
    if c.op != "phi":
        out[c.key] = (c, True)
        return out
    for at in atoms_of(c):
        c1, c0 = cof_any(c, at)
        if c1 is FALSE:
            out[at.key] = (at, False)
        elif c0 is FALSE:
            out[at.key] = (at, True)
    # atoms inside: a leaf that is a non-constant boolean atom
    if c.a[2] is FALSE or c.a[1] is FALSE:
        branch = c.a[1] if c.a[2] is FALSE else c.a[2]
        out.update(implied_literals(branch))
    return out


# ---------------------------------------------------------------------------- printing
_INFIX = {}


def show(t, depth=0, maxd=60):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth + 1, maxd) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if depth > maxd:
        return "..."
    d = depth + 1
    s = lambda x: show(x, d, maxd)
    op, a = t.op, t.a
    if op == "const":
        v = a[0]
        if isinstance(v, Fraction):
            return str(float(v))
        return repr(v)
    if op in ("sym", "lv"):
        return str(a[0])
    if op == "poly":
        parts = []
        for c, m in a[0]:
            num = [s(f) if not f.op == "poly" else "(" + s(f) + ")" for f, e in m for _ in range(max(e, 0))]
            den = [s(f) if not f.op == "poly" else "(" + s(f) + ")" for f, e in m for _ in range(max(-e, 0))]
            cs = str(c if c.denominator == 1 else float(c))
            if c == 1 and num:
                x = "*".join(num)
            elif c == -1 and num:
                x = "-" + "*".join(num)
            else:
                x = "*".join([cs] + num)
            for y in den:
                x += "/" + y
            parts.append(x)
        return "(" + " + ".join(parts) + ")" if len(parts) > 1 else parts[0]
    if op == "phi":
        return "{%s ? %s : %s}" % (s(a[0]), s(a[1]), s(a[2]))
    if op == "index":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if op == "slice":
        return "%s[%s:%s%s]" % (s(a[0]), "" if is_const(a[1], None) else s(a[1]), "" if is_const(a[2], None) else s(a[2]),
                                "" if is_const(a[3], None) else ":" + s(a[3]))
    if op == "attr":
        return "%s.%s" % (s(a[0]), a[1])
    if op == "len":
        return "len(%s)" % s(a[0])
    if op == "comp":
        return "[%s for %s<%s%s]" % (s(a[2]), a[3], s(a[0]), "" if a[1] is TRUE else " if " + s(a[1]))
    if op == "sumc":
        return "sum(%s for %s<%s%s)" % (s(a[2]), a[3], s(a[0]), "" if a[1] is TRUE else " if " + s(a[1]))
    if op == "anyc":
        return "any(%s for %s<%s)" % (s(a[1]), a[2], s(a[0]))
    if op == "lt0":
        return "(%s < 0)" % s(a[0])
    if op in ("list",):
        return "[" + ", ".join(s(x) for x in a[0]) + "]"
    if op in ("tuple",):
        return "(" + ", ".join(s(x) for x in a[0]) + ")"
    if op == "dict":
        return "{" + ", ".join(s(k) + ": " + s(v) for k, v in a[0]) + "}"
    if op == "ext":
        return a[0]
    if op in ("call", "meth"):
        return "%s(%s)" % (s(a[0]) if isinstance(a[0], T) else a[0], ", ".join(s(x) for x in a[1:]))
    return op + "(" + ", ".join(s(x) for x in a) + ")"


def replace(t, pairs):
    """t with every subterm equal to a key of pairs (term -> term) replaced"""
    want = {k.key: v for k, v in pairs.items()}
    ids = {x.id: want[x.key] for x in subterms(t) if x.key in want}
    return subst_map(t, {}, None, ids) if ids else t
