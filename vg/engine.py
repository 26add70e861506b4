"""Interprocedural value-graph construction over the Python syntax tree of the repository.

One abstract state per program point; conditionals are merged into gated (phi) values, loops are
summarised by recurrence solving (accumulators become comprehensions, sums, scatter-adds, ...),
calls into the repository are inlined.  There is no path enumeration and no solver: both sides of a
branch are evaluated once and joined.  Constructs that are not modelled evaluate to explicit
`unk` values, which no rule treats as evidence of anything.
"""
import ast
import os
from . import terms as tm
from .terms import *  # noqa
from .terms import _asarr


class Dead(Exception):
    """the current path ends here (raise / no return)"""


class Budget(Exception):
    pass


class AnalysisError(Exception):
    """the analysis itself cannot run (missing public anchor, unparsable source)"""


UNBOUND = mk("unbound")
STD = set("""os sys re json math time copy logging pathlib tempfile shutil mmap typing collections functools
itertools concurrent contextlib urllib zipfile io abc dataclasses warnings operator heapq threading random string
struct hashlib enum types inspect glob errno bisect queue multiprocessing traceback resource numpy scipy ast
unicodedata locale uuid weakref atexit secrets codecs csv gzip array ctypes gc platform textwrap datetime
numbers statistics pickle shelve subprocess signal socket stat fnmatch decimal fractions builtins __future__""".split())


class Func:
    def node_decorated(self):
        return bool(getattr(self.node, "decorator_list", None))

    def __init__(self, node, mod, qual, cls=None, closure=None, defaults=(), kwdefaults=None, decos=()):
        self.node, self.mod, self.qual, self.cls = node, mod, qual, cls
        self.closure = closure
        self.defaults, self.kwdefaults = defaults, kwdefaults or {}
        self.decos = decos
        self.has_yield = None


class Klass:
    def __init__(self, qual, node, mod):
        self.qual, self.node, self.mod = qual, node, mod
        self.attrs = {}
        self.bases = []          # Klass or ext name str
        self.fields = []         # NamedTuple / dataclass fields [(name, default term|None)]
        self.is_nt = False
        self.is_dc = False


class Module:
    def __init__(self, name, path, tree, is_pkg):
        self.name, self.path, self.tree, self.is_pkg = name, path, tree, is_pkg
        self.env = {}
        self.loaded = False
        self.loading = False
        self.requires = TRUE
        self.lines = 0


class Effect:
    __slots__ = ("kind", "d", "pc", "loops", "stack", "prot", "fin", "where", "seq", "mod", "handlers", "tries", "par")

    def __init__(self, kind, d, **kw):
        self.kind, self.d = kind, d
        for k, v in kw.items():
            setattr(self, k, v)

    def __repr__(self):
        return "<%s %s @%s pc=%s prot=%s fin=%s>" % (self.kind, self.d, self.where, [show(p) for p in self.pc], self.prot, self.fin)


class State:
    __slots__ = ("env", "heap", "pc", "lits")

    def __init__(self, env, heap, pc=(), lits=None):
        self.env, self.heap, self.pc, self.lits = env, heap, pc, lits if lits is not None else {}

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.pc, self.lits)

    def assume(self, c):
        if c is TRUE:
            return self
        self.pc = self.pc + (c,)
        l = dict(self.lits)
        for k, (a, v) in implied_literals(c).items():
            l[k] = v
            _derived(a, v, l)
        self.lits = l
        return self

    def fork(self, c):
        return self.copy().assume(c)


def _derived(a, v, l):
    # is(x, None) true => truth(x) false
    if a.op == "is" and v and NONEV in a.a:
        x = a.a[0] if a.a[1] is NONEV else a.a[1]
        l[mk("truth", x).key] = False


class Frame:
    def __init__(self, fn, mod):
        self.fn, self.mod = fn, mod
        self.returns = []
        self.loops = []
        self.yields = None
        self.on_yield = None
        self.globals_ = set()
        self.base_pc = 0
        self.caller_env = None


class LoopCtx:
    def __init__(self):
        self.breaks, self.continues = [], []


class TryCtx:
    def __init__(self, names, frame):
        self.names = names           # exception names caught (None = everything)
        self.states = []             # states at explicit raises
        self.conds = []              # success conditions (imports)
        self.atom = None             # "an exception was caught"
        self.swallows = False        # some handler goes on normally
        self.frame = frame


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault",
            "add", "discard", "popitem", "fill", "resize", "put", "partition", "setflags", "difference_update",
            "intersection_update", "symmetric_difference_update", "itemset", "byteswap", "appendleft", "popleft"}

EXC_PARENTS = {
    "ImportError": ["Exception"], "ModuleNotFoundError": ["ImportError", "Exception"],
    "ValueError": ["Exception"], "KeyError": ["LookupError", "Exception"], "IndexError": ["LookupError", "Exception"],
    "TypeError": ["Exception"], "FileNotFoundError": ["OSError", "IOError", "Exception"], "OSError": ["Exception"],
    "AssertionError": ["Exception"], "RuntimeError": ["Exception"], "NotImplementedError": ["RuntimeError", "Exception"],
    "StopIteration": ["Exception"], "AttributeError": ["Exception"], "ZeroDivisionError": ["ArithmeticError", "Exception"],
}


def counting_while(n):
    """`while i < bound:` with a body that ends by i += constant and assigns i nowhere else"""
    t = n.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.NotEq))):
        return False
    for x in (t.left, t.comparators[0]):
        if not isinstance(x, ast.Name):
            continue
        sets = [y for y in ast.walk(n) if isinstance(y, ast.Name) and y.id == x.id and isinstance(y.ctx, ast.Store)]
        steps = [y for y in n.body if isinstance(y, ast.AugAssign) and isinstance(y.op, (ast.Add, ast.Sub)) and isinstance(y.target, ast.Name)
                 and y.target.id == x.id and isinstance(y.value, ast.Constant)]
        steps += [y for y in n.body if isinstance(y, ast.Assign) and len(y.targets) == 1 and isinstance(y.targets[0], ast.Name) and y.targets[0].id == x.id
                  and isinstance(y.value, ast.BinOp) and isinstance(y.value.op, (ast.Add, ast.Sub)) and isinstance(y.value.left, ast.Name) and y.value.left.id == x.id
                  and isinstance(y.value.right, ast.Constant)]
        if len(sets) == 1 and len(steps) == 1:
            return True
    return False


def same_keys(t, m, known=frozenset()):
    """t is the dictionary m with other values for keys that it has"""
    if t is m:
        return True
    if t.op == "phi":
        pos = frozenset(x.key for x in tm.find_ops(t.a[0], "in") if restrict(t.a[0], {x.key: False}) is FALSE)
        return same_keys(t.a[1], m, known | pos) and same_keys(t.a[2], m, known)
    if t.op == "setitem":
        return contains_(t.a[1], m).key in known and same_keys(t.a[0], m, known)
    if t.op == "sadd":
        def inside(q):
            if q.op == "flat":
                return inside(q.a[0])
            if q.op != "comp":
                return False
            _, (g, e), _ = tm.open_binder(q)
            return restrict(g, {contains_(e, m).key: False}) is FALSE or inside(e)
        return same_keys(t.a[0], m, known) and inside(t.a[1])
    return False


def same_answers(t, m, init):
    """t (see same_keys) with the questions for keys of m asked of init"""
    if t is m:
        return t
    if t.op == "phi":
        return ite(same_answers(t.a[0], m, init), same_answers(t.a[1], m, init), same_answers(t.a[2], m, init))
    if t.op == "in" and t.a[1] is m:
        return contains_(t.a[0], init)
    if t.op == "setitem":
        return setitem(same_answers(t.a[0], m, init), t.a[1], t.a[2])
    if t.op == "sadd":
        return sadd(*[same_answers(x, m, init) for x in t.a])
    if t.op == "flat":
        return tm.flat(same_answers(t.a[0], m, init))
    if t.op == "comp":
        N, (g, e), v = tm.open_binder(t)
        return comp(N, same_answers(g, m, init), same_answers(e, m, init), v)
    return t


def upper_bound(wc, m, depth=0):
    """b for a condition that says m < b, b free of the loop's variables"""
    if wc.op == "lt0":
        b = sub(m, wc.a[0])     # m - x < 0 -> x
        return b if not has_mu(b, m.a[0]) and b.key != m.key else None
    if wc.op != "phi":
        return None
    if wc.a[1] is FALSE and wc.a[2] is TRUE and wc.a[0].op == "lt0":
        b = add(wc.a[0].a[0], m)     # not (b - 1 - m < 0)
        return add(b, ONE) if not has_mu(b, m.a[0]) else None
    # a bound that is chosen by conditions that the loop does not change
    todo = [wc]
    while todo and depth < 6:
        x = todo.pop()
        if x.op != "phi":
            continue
        if not has_mu(x.a[0], m.a[0]):
            a = upper_bound(restrict(wc, {x.a[0].key: True}), m, depth + 1)
            b = upper_bound(restrict(wc, {x.a[0].key: False}), m, depth + 1)
            return ite(x.a[0], a, b) if a is not None and b is not None else None
        todo += [x.a[1], x.a[2]]
    return None


class Engine:
    expired = False  # set when the time of the whole check is used up

    def __init__(self, root, pkg="bm25s", avail=None, max_steps=400000, overlay=None):
        self.root, self.pkg = root, pkg
        self.opaque_loops = False
        self.opaque_calls = set()
        self._search = {}
        self.avail_cfg = avail or {}
        self.mods = {}
        self.funcs = []
        self.func_by_node = {}
        self.classes = {}
        self.refs = {}
        self.fs_entries = None     # names in every directory listed (None: not known)
        self.effects = []
        self.views = {}
        self.slices = {}
        self.steps = 0
        self.max_steps = max_steps
        self.loc_n = 0
        self.stack = []           # (func qual, call line)
        self.loops = []           # loop descriptors active
        self.prot = []            # enclosing finally ids
        self.fin = None
        self.par = 0              # > 0: inside a call that a pool of workers makes
        self.trys = []
        self.finals = {}
        self.unmodelled = {}      # reason -> count
        self.analysed_funcs = set()
        self.call_sites = 0
        self.attr_types = {}      # (class qual, attr) -> Ty
        self.attr_vals = {}       # (class qual, attr) -> term
        self.base_heap = {}
        self.seq = 0
        self.sym_results = {}     # symbolic callable -> value of a call
        self.max_unroll = 16
        self.watch = ()           # (object, attribute): contents recorded with every mutation
        self.fs = None            # path key -> content (None: files are unknown)
        self.intercept = {}       # function qual -> python callable(engine, st, func, args, kwargs, node)
        self.whiles = {}
        self.deepcopied = set()
        self.overlay = overlay or {}   # module name -> source text (spec modules)
        self.record = True
        self.cur_line = None
        self.cur_mod = None
        self.exc_n = 0
        self.distinct = set()

    # ------------------------------------------------------------------ modules
    def modpath(self, name):
        if name in self.overlay:
            return None
        p = os.path.join(self.root, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        if os.path.exists(p + ".py"):
            return p + ".py"
        return None

    def is_internal(self, name):
        if name in self.overlay:
            return True
        return name.split(".")[0] == self.pkg and self.modpath(name) is not None

    def get_module(self, name):
        m = self.mods.get(name)
        if m is None:
            if name in self.overlay:
                src, path, is_pkg = self.overlay[name], "<spec:%s>" % name, False
            else:
                path = self.modpath(name)
                if path is None:
                    raise AnalysisError("module %s not found" % name)
                with open(path, encoding="utf-8") as f:
                    src = f.read()
                is_pkg = path.endswith("__init__.py")
            try:
                tree = ast.parse(src)
            except SyntaxError as e:
                raise AnalysisError("cannot parse %s: %s" % (path, e))
            m = Module(name, path, tree, is_pkg)
            m.lines = src.count("\n")
            self.mods[name] = m
        if not m.loaded and not m.loading:
            self.load_module(m)
        return m

    def load_module(self, m):
        m.loading = True
        save = (self.stack, self.loops, self.prot, self.fin, self.trys, self.cur_mod, self.record)
        self.stack, self.loops, self.prot, self.fin, self.trys = [("<module %s>" % m.name, 0)], [], [], None, []
        self.cur_mod = m
        if "." in m.name and m.name not in self.overlay:
            self.get_module(m.name.rsplit(".", 1)[0])
        fr = Frame(None, m)
        tc = TryCtx([], fr)
        m.reqs = []
        st = State(m.env, self.base_heap)
        m.env["__name__"] = const(m.name)
        m.env["__file__"] = mk("sym", "__file__:" + m.name, ty=STR)
        self._modload = m
        try:
            r = self.exec_block(m.tree.body, st, fr)
        except Dead:
            r = None
        if r is not None:
            m.env.update(r.env)
            self.base_heap.update(r.heap)
        else:
            m.env["__dead__"] = TRUE
        m.loaded = True
        m.loading = False
        (self.stack, self.loops, self.prot, self.fin, self.trys, self.cur_mod, self.record) = save

    def avail(self, name):
        top = name.split(".")[0]
        if top in STD:
            return TRUE
        for k in (name, top):
            if k in self.avail_cfg:
                v = self.avail_cfg[k]
                return const(v) if isinstance(v, bool) else v
        return mk("avail", top)

    def note_req(self, cond, st):
        """an import whose success depends on cond happened on the current path"""
        if cond is TRUE:
            return
        for t in reversed(self.trys):
            if t.names is None or "ImportError" in t.names or "Exception" in t.names or "ModuleNotFoundError" in t.names:
                if cond is FALSE:
                    self.do_raise("ImportError", const("missing package"), st, None)
                t.conds.append(cond)
                return
        if self.cur_mod is not None and self.cur_mod.loading:
            self.cur_mod.requires = land(self.cur_mod.requires, cond)
        self.effect("import_req", {"cond": cond}, st)

    # ------------------------------------------------------------------ bookkeeping
    def tick(self, node=None):
        self.steps += 1
        if Engine.expired:
            raise Budget("time")
        if self.steps > self.max_steps:
            raise Budget()
        if node is not None and hasattr(node, "lineno"):
            self.cur_line = node.lineno
            tm.CUR_SRC[0] = (self.cur_mod.name if self.cur_mod else "?", node.lineno)

    def where(self):
        p = self.cur_mod.path if self.cur_mod else "?"
        if p and p.startswith(self.root):
            p = os.path.relpath(p, self.root)
        return "%s:%s" % (p, self.cur_line)

    def effect(self, kind, d, st):
        if not self.record:
            return None
        self.seq += 1
        e = Effect(kind, d, pc=st.pc, loops=tuple(l for l in self.loops if l[0] != "unrolled"), stack=tuple(self.stack), prot=tuple(self.prot),
                   fin=self.fin, where=self.where(), seq=self.seq, mod=self.cur_mod.name if self.cur_mod else "?",
                   handlers=tuple(tuple(t.names) if t.names is not None else ("*",) for t in self.trys), tries=tuple(self.trys), par=self.par)
        self.effects.append(e)
        return e

    def unmodel(self, reason, *deps):
        self.unmodelled[reason] = self.unmodelled.get(reason, 0) + 1
        return unk(reason, *deps)

    def alloc(self, st, content):
        self.loc_n += 1
        l = mk("loc", self.loc_n, tm.ty_name(content.ty), ty=content.ty)  # terms are shared between runs: the type is part of the name
        st.heap[l.id] = content
        st.heap[("new", l.id)] = self.loc_n
        self.locs[l.id] = l
        return l

    locs = {}

    def alloc_view(self, st, content, base):
        """an array that may share its memory with `base`"""
        l = self.alloc(st, content)
        self.views[l.id] = base
        return l

    # ------------------------------------------------------------------ heap
    def deref(self, v, st):
        if v.op == "loc":
            return st.heap.get(v.id, v)
        if v.op == "phi":
            return ite(v.a[0], self.deref(v.a[1], st), self.deref(v.a[2], st))
        o = st.heap.get(("o", v.id))
        if o is not None:
            return o
        return v.a[0] if v.op == "fresh" else v

    def set_content(self, ref, content, st):
        if ref.op == "loc":
            st.heap[ref.id] = content
            b = self.views.get(ref.id)
            if b is not None and b.op in ("loc", "phi", "sym", "attr", "index"):
                self.set_content(b, unk("view-write", self.deref(b, st)), st)
        elif ref.op == "phi":
            c, a, b = ref.a
            ca, cb = self.deref(a, st), self.deref(b, st)
            self.set_content(a, ite(c, content, ca), st)
            self.set_content(b, ite(c, cb, content), st)
        else:
            if kind(content) == "array" and ref.op in ("sym", "attr", "index"):
                # the value before the write, told apart from the written object
                content = tm.replace(content, {ref: mk("old", ref, ty=ref.ty)})
            st.heap[("o", ref.id)] = content
            st.heap[("ref", ref.id)] = self.refs[ref.id] = ref

    refs = {}

    def resolve(self, v, st, minloc=0):
        """deep value: replace heap references by their contents"""
        memo = {}

        def has_loc(x, seen={}):
            return True

        def go(x):
            if isinstance(x, tuple):
                return tuple(go(y) for y in x)
            if not isinstance(x, T):
                return x
            r = memo.get(x.id)
            if r is not None:
                return r
            memo[x.id] = x
            if x.op == "loc":
                c = st.heap.get(x.id)
                if c is None or x.a[0] < minloc:
                    r = x
                elif c.op == "obj":
                    fs = []
                    for k, val in list(st.heap.items()):
                        if isinstance(k, tuple) and k[0] == "f" and k[1] == x.id:
                            fs.append((const(k[2]), go(val)))
                    fs.sort(key=lambda p: p[0].a[0])
                    r = mk("objval", c.a[0], tuple(fs), ty=c.ty)
                else:
                    r = go(c)
                    if minloc:
                        r = tm.copy_of(r)
            elif x.op == "fresh":
                o = st.heap.get(("o", x.id))
                r = x if minloc else go(o) if o is not None else x.a[0]
            elif x.op == "old":
                r = x
            elif x.op in ("sym", "attr", "index") and ("o", x.id) in st.heap and kind(st.heap[("o", x.id)]) == "array":
                r = st.heap[("o", x.id)]
            elif not x.a or x.op in ("const", "sym", "lv", "ext", "func", "class", "module"):
                r = x
            elif ("o", x.id) in st.heap and minloc == 0:
                r = go(st.heap[("o", x.id)])
            elif x.op == "phi":
                r = ite(go(x.a[0]), go(x.a[1]), go(x.a[2]))
            elif not _has_loc(x):
                r = x
            elif x.op in tm.BINDERS:
                N, parts, var = open_binder(x)
                m2 = subst_locs(parts, go)
                r = rebind(x.op, go(N), m2, var, x)
            else:
                r = rebuild(x, tuple(go(y) for y in x.a))
            memo[x.id] = r
            return r

        return go(v)

    def rootof(self, v):
        """the symbolic object a reference reaches into: (root term, path string) or (None, '')"""
        path = ""
        n = 0
        while n < 60:
            n += 1
            if v.op == "attr":
                path = "." + v.a[1] + path
                v = v.a[0]
            elif v.op in ("index", "slice"):
                path = "[]" + path
                v = v.a[0]
            elif v.op in ("values", "keys", "items", "setseq", "enum"):
                v = v.a[0]
            elif v.op in ("arr", "cast_maybe", "flatview"):
                v = v.a[0]
            elif v.op == "phi":
                for x in (v.a[1], v.a[2]):
                    r = self.rootof(x)
                    if r[0] is not None and r[0].op == "sym":
                        return r[0], r[1] + path
                v = v.a[1]
            elif v.op == "sym":
                return v, path
            elif v.op == "loc" and v.id in self.views:
                v = self.views[v.id]
            else:
                return (v, path) if v.op == "loc" else (None, path)
        return None, path

    def mutate(self, ref, how, st, **d):
        r, path = self.rootof(ref)
        if r is not None and r.key in self.deepcopied:
            d["deep"], r = r, None
        d.update(ref=ref, root=r, path=path, how=how)
        w = d.get("value")
        if isinstance(w, T) and w.op == "loc":
            d["content"] = self.resolve(w, st)
        x = self.effect("mutate", d, st)
        if x is not None and self.watch:
            d["before"] = self.deref(ref, st)
            d["watch"] = {n: self.deref(self.get_attr(o, n, st), st) for o, n in self.watch}

    # ------------------------------------------------------------------ attribute access
    def find_method(self, cls, name):
        seen = []
        todo = [cls]
        while todo:
            c = todo.pop(0)
            if not isinstance(c, Klass) or c in seen:
                continue
            seen.append(c)
            if name in c.attrs:
                return c.attrs[name], c
            todo.extend(c.bases)
        return None, None

    def class_of(self, v):
        if v.ty is not None and v.ty.cls is not None:
            return self.classes.get(v.ty.cls)
        return None

    def get_attr(self, v, name, st):
        if v.op == "phi":
            return ite(v.a[0], self.get_attr(v.a[1], name, st), self.get_attr(v.a[2], name, st))
        if is_const(v, None) and not name.startswith("__"):
            self.effect("attr_none", {"name": name}, st)
        if v.op == "module":
            mn = v.a[0]
            if self.is_internal(mn):
                m = self.get_module(mn)
                if name in m.env:
                    return m.env[name]
                if self.is_internal(mn + "." + name):
                    self.get_module(mn + "." + name)
                    return mk("module", mn + "." + name)
                return self.unmodel("missing-module-attr", const(mn), const(name))
            return self.ext(mn + "." + name)
        if v.op == "ext" and v.a[0] in ("logging.progress", "logging.silent") and name in ("disable", "n", "total", "leave", "last_print_n", "iterable"):
            # data of a progress bar
            if name == "disable" and v.a[0] == "logging.silent":
                return TRUE
            return mk("attr", mk("sym", v.a[0]), name)
        if v.op == "ext":
            if v.a[0] == "numpy" or True:
                return self.ext(v.a[0] + "." + name)
        if v.op == "objval":
            for k_, x in v.a[1]:
                if k_.a[0] == name:
                    return x
        if v.op == "class":
            k = self.classes[v.a[0]]
            val, owner = self.find_method(k, name)
            if val is not None:
                if val.op == "func":
                    f = self.funcs[val.a[0]]
                    if "classmethod" in f.decos:
                        return mk("bound", val, v)
                return val
            if name == "__name__":
                return const(k.qual.rsplit(".", 1)[-1])
            return mk("attr", v, name)
        if v.op == "nt":
            k = self.classes[v.a[0]]
            for i, (fn, d) in enumerate(k.fields):
                if fn == name:
                    return v.a[1][i]
        if v.op == "super":
            k = self.classes[v.a[0]]
            for b in k.bases:
                if isinstance(b, Klass):
                    val, owner = self.find_method(b, name)
                    if val is not None:
                        f = self.funcs[val.a[0]] if val.op == "func" else None
                        if f is not None and "staticmethod" in f.decos:
                            return val
                        return mk("bound", val, v.a[1])
            return mk("ext", "object." + name)
        # instance
        key = ("f", v.id, name)
        if key in st.heap:
            return st.heap[key]
        k = self.class_of(v)
        if v.op == "loc":
            c = st.heap.get(v.id)
            if c is not None and c.op == "obj":
                k = self.classes.get(c.a[0])
        if k is not None:
            val, owner = self.find_method(k, name)
            if val is not None:
                if val.op == "func":
                    f = self.funcs[val.a[0]]
                    if "staticmethod" in f.decos:
                        return val
                    if "classmethod" in f.decos:
                        return mk("bound", val, mk("class", k.qual))
                    if "property" in f.decos or "cached_property" in f.decos:
                        return self.call(mk("bound", val, v), [], {}, st, None)
                    return mk("bound", val, v)
                return val
            if k.is_nt and v.op != "loc":
                for i, (fn, d) in enumerate(k.fields):
                    if fn == name:
                        t = self.attr_types.get((k.qual, name))
                        return mk("attr", v, name, ty=t)
        dv = self.deref(v, st)
        if dv.op == "csc" and name in ("data", "indices", "indptr", "shape", "nnz"):
            return self.alloc(st, mk("attr", dv, name, ty=ARRAY)) if name in ("data", "indices", "indptr") else mk("attr", dv, name)
        if kind(dv) == "array":
            if name == "size":
                return length(dv)
            if name == "shape":
                return mk("attr", dv, "shape", ty=TUPLE)
            if name == "T":
                return mk("attr", dv, "T", ty=ARRAY)
            if name == "ndim":
                return mk("attr", dv, "ndim", ty=NAT)
            if name == "dtype":
                return mk("attr", dv, "dtype")
        cls = k.qual if k is not None else None
        if (cls, name) in self.attr_vals:
            return self.attr_vals[(cls, name)]
        ty = self.attr_types.get((cls, name))
        if ty is None and k is None and v.ty is not None and v.ty.kind in ("list", "dict", "set", "str", "array", "tuple", "path", "file", "bytes"):
            if v.ty.kind == "path" and name in ("parent",):
                return mk("attr", dv, name, ty=PATH)
            if v.ty.kind == "path" and name == "suffix":
                return mk("splitext1", strof(dv), ty=STR)
            if v.ty.kind == "path" and name in ("name", "stem", "suffix"):
                return mk("attr", dv, name, ty=STR)
            return mk("bmeth", v, name)
        if v.op == "loc" and dv.op == "obj" and k is not None:
            # attribute never set on a fresh object
            self.effect("noattr", {"ref": v, "name": name}, st)
            return self.unmodel("unset-attr", const(name))
        if k is not None and v.op == "sym" or v.op in ("sym", "attr", "index"):
            return mk("attr", v, name, ty=ty)
        if v.op == "func" and not name.startswith("__") and not self.funcs[v.a[0]].node_decorated():
            self.effect("attr_none", {"name": name, "of": "the function " + self.funcs[v.a[0]].qual}, st)
        return mk("bmeth", v, name) if v.op in ("call", "meth", "unk", "ext", "recompile", "executor", "file") else mk("attr", dv, name, ty=ty)

    def set_attr(self, v, name, val, st):
        if v.op == "phi":
            c = v.a[0]
            for ref, cc in ((v.a[1], c), (v.a[2], lnot(c))):
                old = st.heap.get(("f", ref.id, name))
                st.heap[("f", ref.id, name)] = ite(cc, val, old if old is not None else mk("attr", ref, name))
            return
        r, path = self.rootof(v)
        self.effect("setattr", {"ref": v, "root": r, "path": path, "name": name, "value": val}, st)
        st.heap[("f", v.id, name)] = val
        if v.op not in ("loc",):
            st.heap[("ref", v.id)] = v

    def ext(self, name):
        alias = {"np": "numpy"}
        if name.startswith("numpy.ma."):
            pass
        c = {"math.inf": float("inf"), "numpy.inf": float("inf"), "os.sep": "/", "math.pi": 3.141592653589793}
        if name in c:
            return const(c[name])
        if name in ("numpy.newaxis",):
            return NONEV
        if name in ("numpy.float32", "numpy.float64", "numpy.int32", "numpy.int64"):
            return mk("ext", name)
        return mk("ext", name)

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fr):
        for s in stmts:
            try:
                st = self.exec_stmt(s, st, fr)
            except Dead:
                return None
            if st is None:
                return None
        return st

    def exec_stmt(self, s, st, fr):
        self.tick(s)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unmodel("stmt-" + type(s).__name__)
            return st
        return m(s, st, fr)

    def s_Pass(self, s, st, fr):
        return st

    def s_Global(self, s, st, fr):
        fr.globals_.update(s.names)
        return st

    def s_Nonlocal(self, s, st, fr):
        self.unmodel("nonlocal")
        return st

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return st
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            return self.do_yield(s.value, st, fr)
        self.eval(s.value, st, fr)
        return st

    def do_yield(self, y, st, fr):
        if isinstance(y, ast.YieldFrom):
            v = self.eval(y.value, st, fr)
            if fr.yields is None:
                self.unmodel("yield-from")
                return st
            self.list_extend(fr.yields, v, st)
            return st
        v = self.eval(y.value, st, fr) if y.value is not None else NONEV
        if fr.on_yield is not None:
            return fr.on_yield(v, st, fr)
        if fr.yields is not None:
            self.set_content(fr.yields, concat(self.deref(fr.yields, st), tlist([v])), st)
        return st

    def s_Import(self, s, st, fr):
        for a in s.names:
            name = a.name
            if self.is_internal(name):
                m = self.get_module(name)
                self.note_req(m.requires, st)
                st.env[a.asname or name.split(".")[0]] = mk("module", name if a.asname else name.split(".")[0])
            else:
                self.note_req(self.avail(name), st)
                st.env[a.asname or name.split(".")[0]] = mk("module", name if a.asname else name.split(".")[0])
        return st

    def s_ImportFrom(self, s, st, fr):
        base = s.module or ""
        if s.level:
            pk = fr.mod.name if fr.mod.is_pkg else fr.mod.name.rsplit(".", 1)[0]
            for _ in range(s.level - 1):
                pk = pk.rsplit(".", 1)[0]
            base = pk + ("." + base if base else "")
        for a in s.names:
            nm = a.asname or a.name
            if self.is_internal(base):
                m = self.get_module(base)
                if a.name == "*":
                    for k, v in m.env.items():
                        if not k.startswith("_"):
                            st.env[k] = v
                    continue
                if a.name in m.env:
                    v = m.env[a.name]
                    sub = base + "." + a.name
                    self.note_req(land(m.requires, self.get_module(sub).requires) if v.op == "module" and v.a[0] == sub and self.is_internal(sub) else m.requires, st)
                    st.env[nm] = v
                elif self.is_internal(base + "." + a.name):
                    m2 = self.get_module(base + "." + a.name)
                    self.note_req(land(m.requires, m2.requires), st)
                    st.env[nm] = mk("module", base + "." + a.name)
                    m.env.setdefault(a.name, st.env[nm])
                elif m.loading:
                    st.env[nm] = mk("lazy", base, a.name)
                else:
                    st.env[nm] = self.unmodel("import-missing", const(base + "." + a.name))
            else:
                self.note_req(self.avail(base), st)
                st.env[nm] = self.ext(base + "." + a.name)
        return st

    def mkfunc(self, node, fr, st, qual, cls=None):
        args = node.args
        decos = []
        for d in getattr(node, "decorator_list", []):
            decos.append(d)
        f = Func(node, fr.mod, qual, cls=cls)
        f.defaults = [self.eval(d, st, fr) for d in args.defaults]
        f.kwdefaults = {a.arg: self.eval(d, st, fr) for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is not None}
        f.closure = st.env if fr.fn is not None or isinstance(node, ast.Lambda) else None
        f.decos = []
        self.funcs.append(f)
        v = mk("func", len(self.funcs) - 1, key=tm._h("func", qual, ast.dump(node) if isinstance(node, ast.Lambda) else ""))
        for d in reversed(decos):
            if isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod", "property"):
                f.decos.append(d.id)
                continue
            try:
                dv = self.eval(d, st, fr)
            except Dead:
                continue
            nm = dv.a[0] if dv.op == "ext" else (dv.a[0].a[0] if dv.op == "call" and dv.a[0].op == "ext" else None)
            if nm is not None:
                short = str(nm).rsplit(".", 1)[-1]
                if str(nm).startswith("numba.") or short in ("wraps", "abstractmethod", "override", "final", "overload", "njit", "jit"):
                    continue
                if short in ("lru_cache", "cache"):
                    f.decos.append("cache")
                    self.effect("cached_function", {"name": qual}, st)
                    continue
                if short in ("contextmanager", "cached_property", "classmethod", "staticmethod", "property"):
                    f.decos.append(short)
                    continue
                v = self.call(dv, [v], {}, st, d) if False else mk("call", dv, v)
                self.unmodel("decorator-" + short)
                continue
            if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
                f.decos.append(d.attr)
                continue
            v = self.call(dv, [v], {}, st, d)
        return v

    def s_FunctionDef(self, s, st, fr):
        pre = fr.fn.qual + ".<locals>." if fr.fn is not None else fr.mod.name + "."
        st.env[s.name] = self.mkfunc(s, fr, st, pre + s.name)
        return st

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st, fr):
        qual = fr.mod.name + "." + s.name
        k = Klass(qual, s, fr.mod)
        self.classes[qual] = k
        for b in s.bases:
            bv = self.eval(b, st, fr)
            if bv.op == "class":
                k.bases.append(self.classes[bv.a[0]])
                k.is_nt = k.is_nt or self.classes[bv.a[0]].is_nt
                k.fields = list(self.classes[bv.a[0]].fields)
            else:
                k.bases.append(str(bv.a[0]) if bv.a else "?")
                if bv.op == "ext" and bv.a[0].endswith("NamedTuple"):
                    k.is_nt = True
        for d in s.decorator_list:
            dv = self.eval(d, st, fr)
            if "dataclass" in show(dv):
                k.is_dc = True
        st.env[s.name] = mk("class", qual)
        cst = State(dict(st.env), st.heap, st.pc, st.lits)
        cfr = Frame(fr.fn, fr.mod)
        for b in s.body:
            self.tick(b)
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                v = self.mkfunc(b, fr, cst, qual + "." + b.name, cls=k)
                if v.op == "func":
                    self.funcs[v.a[0]].closure = None
                    ds = self.funcs[v.a[0]].decos
                    if "setter" in ds or "deleter" in ds:
                        continue
                k.attrs[b.name] = v
                cst.env[b.name] = v
            elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                dv = self.eval(b.value, cst, cfr) if b.value is not None else None
                if k.is_nt or k.is_dc:
                    k.fields.append((b.target.id, dv))
                if dv is not None:
                    k.attrs[b.target.id] = dv
                    cst.env[b.target.id] = dv
            elif isinstance(b, ast.Assign):
                v = self.eval(b.value, cst, cfr)
                for t in b.targets:
                    if isinstance(t, ast.Name):
                        k.attrs[t.id] = v
                        cst.env[t.id] = v
            elif isinstance(b, ast.Expr):
                pass
            else:
                r = self.exec_stmt(b, cst, cfr)
                if r is not None:
                    for n, v in r.env.items():
                        if n not in st.env:
                            k.attrs[n] = v
        return st

    def s_Return(self, s, st, fr):
        v = self.eval(s.value, st, fr) if s.value is not None else NONEV
        fr.returns.append([st.pc, v, st])
        if self.loops and fr.loops:
            fr.loops[-1].rets = getattr(fr.loops[-1], "rets", 0) + 1
        return None

    def exc_name(self, e, st, fr):
        """name of the exception raised"""
        if e is None:
            return "<reraise>", NONEV
        v = None
        if isinstance(e, ast.Call):
            f = e.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
            if nm and (nm in EXC_PARENTS or nm.endswith("Error") or nm.endswith("Exception") or nm == "Exception"):
                fv = self.eval(f, st, fr)
                if fv.op in ("builtin", "ext", "class"):
                    for a in e.args:
                        v = self.eval(a, st, fr)
                    return (fv.a[0].rsplit(".", 1)[-1] if isinstance(fv.a[0], str) else nm), v or NONEV
            v = self.eval(e, st, fr)
        else:
            v = self.eval(e, st, fr)
        names = set()
        for lits, l in leaves(self.resolve(v, st)):
            if l.op in ("builtin", "ext"):
                names.add(l.a[0].rsplit(".", 1)[-1])
            elif l.op == "class":
                names.add(l.a[0].rsplit(".", 1)[-1])
            elif l.op == "excobj":
                names.add(l.a[0])
            elif l.op == "objval" or l.op == "obj":
                names.add(str(l.a[0]).rsplit(".", 1)[-1])
            else:
                names.add("?")
        return "|".join(sorted(names)), v

    def catches(self, names, exc):
        if names is None:
            return True
        if exc in names:
            return True
        if "BaseException" in names or "Exception" in names:
            return True
        for p in EXC_PARENTS.get(exc, []):
            if p in names:
                return True
        k = None
        for q, c in self.classes.items():
            if q.rsplit(".", 1)[-1] == exc:
                k = c
        if k is not None:
            for b in k.bases:
                bn = b.qual.rsplit(".", 1)[-1] if isinstance(b, Klass) else str(b).rsplit(".", 1)[-1]
                if self.catches(names, bn):
                    return True
        return False

    def s_Raise(self, s, st, fr):
        nm, v = self.exc_name(s.exc, st, fr)
        self.do_raise(nm, v, st, s)
        return None

    def do_raise(self, nm, v, st, node):
        for t in reversed(self.trys):
            if t.names == []:
                continue
            if self.catches(t.names, nm):
                t.states.append(st.copy())
                self.effect("raise", {"exc": nm, "caught": True, "msg": v}, st)
                raise Dead()
        if self.cur_mod is not None and self.cur_mod.loading and nm in ("ImportError", "ModuleNotFoundError"):
            # module-level raise: import of this module fails under this condition
            self.cur_mod.requires = land(self.cur_mod.requires, lnot(conj(st.pc)))
        self.effect("raise", {"exc": nm, "caught": False, "msg": v}, st)
        raise Dead()

    def s_Assert(self, s, st, fr):
        c = self.cond(s.test, st, fr)
        if c is FALSE:
            self.do_raise("AssertionError", NONEV, st, s)
        if c is not TRUE:
            s2 = st.fork(lnot(c))
            try:
                self.do_raise("AssertionError", NONEV, s2, s)
            except Dead:
                pass
            st.assume(c)
        return st

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st, fr)
                i = self.eval_index(t.slice, st, fr)
                self.mutate(o, "delitem", st, index=i)
                d = self.deref(o, st)
                if d.op == "dict" and i.op == "const" and all(k.op == "const" for k, _ in d.a[0]) and any(k.key == i.key for k, _ in d.a[0]):
                    nd = mk("dict", tuple((k, v) for k, v in d.a[0] if k.key != i.key), ty=d.ty)
                else:
                    nd = mk("delitem", d, i, ty=d.ty)
                self.set_content(o, nd, st)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st, fr)
                self.effect("delattr", {"ref": o, "name": t.attr, "root": self.rootof(o)[0]}, st)
                st.heap.pop(("f", o.id, t.attr), None)
        return st

    # assignment -----------------------------------------------------------
    def s_Assign(self, s, st, fr):
        v = self.eval(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        return st

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st, fr), st, fr)
        return st

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globals_:
                self.effect("setglobal", {"name": fr.mod.name + "." + t.id, "value": v}, st)
                st.heap[("g", fr.mod.name, t.id)] = v
                return
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            dv = self.deref(v, st)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    rest = len(t.elts) - i - 1
                    self.assign(e.value, self.alloc(st, slice_(dv, const(i), const(-rest) if rest else NONEV)), st, fr)
                elif star and i > star[0]:
                    self.assign(e, index(dv, const(i - len(t.elts))), st, fr)
                else:
                    self.assign(e, self.unpack_item(dv, i, st), st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fr)
            k = self.class_of(o)
            self.set_attr(o, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, fr)
            self.store(o, t.slice, v, st, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)

    def unpack_item(self, dv, i, st):
        if dv.op == "phi":
            return ite(dv.a[0], self.unpack_item(dv.a[1], i, st), self.unpack_item(dv.a[2], i, st))
        if dv.op == "nt":
            return dv.a[1][i]
        if dv.op in ("list", "tuple") and i < len(dv.a[0]):
            return dv.a[0][i]
        if dv.op == "star_zip":
            # zip(*seq): i-th column
            return self.column(dv.a[0], i)
        if dv.op == "comp" or kind(dv) in ("list", "dict", "tuple"):
            if kind(dv) == "dict":
                dv = keys_(dv)
            k = self.class_of(dv)
            if k is not None and k.is_nt:
                return mk("attr", dv, k.fields[i][0], ty=self.attr_types.get((k.qual, k.fields[i][0])))
            return index(dv, const(i))
        return index(dv, const(i))

    def column(self, seq, i):
        if seq.op == "comp":
            N, (c, b), v = open_binder(seq)
            return comp(N, c, index(b, const(i)), v)
        v = fresh()
        return comp(length(seq), TRUE, index(index(seq, v), const(i)), v)

    def store(self, o, sl, v, st, fr):
        c = self.deref(o, st)
        if isinstance(sl, ast.Slice):
            lo = self.eval(sl.lower, st, fr) if sl.lower else NONEV
            hi = self.eval(sl.upper, st, fr) if sl.upper else NONEV
            if sl.step is not None:
                self.unmodel("step-slice-store")
                self.mutate(o, "setslice", st)
                self.set_content(o, unk("step-slice-store", c), st)
                return
            self.mutate(o, "setslice", st, lo=lo, hi=hi, value=v)
            rv = self.resolve(v, st)
            if is_const(lo, None) and is_const(hi, None):
                if kind(rv) in ("array", "list"):
                    self.set_content(o, rv if kind(rv) == kind(c) else mk("arr", rv), st)
                    return
                self.set_content(o, mk("fillall", c, rv, ty=c.ty), st)
                return
            self.set_content(o, sslice(c, lo, hi, rv), st)
            return
        i = self.eval_index(sl, st, fr)
        self.mutate(o, "setitem", st, index=i, value=v)
        self.set_content(o, setitem(c, self.resolve(i, st), v), st)

    def s_AugAssign(self, s, st, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(id=t.id, ctx=ast.Load()), t), st, fr)
            rhs = self.eval(s.value, st, fr)
            self.aug(cur, s.op, rhs, st, lambda nv: self.assign(t, nv, st, fr))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fr)
            cur = self.get_attr(o, t.attr, st)
            rhs = self.eval(s.value, st, fr)
            self.aug(cur, s.op, rhs, st, lambda nv: self.set_attr(o, t.attr, nv, st))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, fr)
            c = self.deref(o, st)
            if isinstance(t.slice, ast.Slice):
                lo = self.eval(t.slice.lower, st, fr) if t.slice.lower else NONEV
                hi = self.eval(t.slice.upper, st, fr) if t.slice.upper else NONEV
                cur = slice_(c, lo, hi)
                rhs = self.resolve(self.eval(s.value, st, fr), st)
                nv = self.binop(s.op, cur, rhs, st)
                self.mutate(o, "setslice", st, lo=lo, hi=hi, value=nv)
                if is_const(lo, None) and is_const(hi, None):
                    self.set_content(o, nv, st)
                else:
                    self.set_content(o, sslice(c, lo, hi, nv), st)
            else:
                i = self.resolve(self.eval_index(t.slice, st, fr), st)
                cur = index(c, i)
                rhs = self.eval(s.value, st, fr)
                curd = self.deref(cur, st)
                if kind(curd) in ("list", "set", "dict") or cur.op == "loc":
                    self.aug(cur, s.op, rhs, st, lambda nv: self.set_content(o, setitem(self.deref(o, st), i, nv), st))
                    return st
                nv = self.binop(s.op, cur, self.resolve(rhs, st), st)
                self.mutate(o, "setitem", st, index=i, value=nv)
                if isinstance(s.op, (ast.Add, ast.Sub)) and kind(i) == "array":
                    # a[idx] += v with an index array: last write wins for duplicates
                    self.set_content(o, mk("augfancy", c, i, self.resolve(rhs, st), type(s.op).__name__, ty=c.ty), st)
                else:
                    self.set_content(o, setitem(self.deref(o, st), i, nv), st)
        return st

    def aug(self, cur, op, rhs, st, setter):
        d = self.deref(cur, st)
        k = kind(d)
        if k == "list" and isinstance(op, ast.Add):
            self.list_extend(cur, rhs, st)
            return
        if k in ("set", "dict") and isinstance(op, (ast.BitOr, ast.BitAnd, ast.Sub)):
            self.mutate(cur, "update", st)
            self.set_content(cur, self.binop(op, d, self.resolve(rhs, st), st), st)
            return
        nv = self.binop(op, d, self.resolve(rhs, st), st)
        if k == "array":
            self.mutate(cur, "augassign", st, value=nv)
            if not self.write_through(cur, nv, st, "augassign"):
                setter(nv)
            return
        if k is None and cur.op in ("sym", "attr", "index"):
            r, path = self.rootof(cur)
            self.effect("maybe_mutate", {"ref": cur, "root": r, "path": path, "how": "augassign"}, st)
        setter(nv)

    def write_through(self, cur, nv, st, how):
        """new content for an array, in the arrays that it is a slice of as well; False when it is only a value"""
        for b in list(self.slices.get(cur.id, {}).values()):
            # a slice taken from a local array: writing it writes that array
            c = self.deref(b, st)
            if c.key == cur.key:
                self.set_content(b, nv, st)
            else:
                self.mutate(b, how, st)
                whole = cur.op == "slice" and cur.a[0].key == c.key and is_const(cur.a[3], None)
                self.set_content(b, sslice(c, cur.a[1], cur.a[2], nv) if whole else unk("slice-write", c, nv), st)
        if cur.op in ("loc", "sym", "attr", "index", "phi"):
            self.set_content(cur, nv, st)
            return True
        return False

    def store_through(self, ref, v, st):
        """ref[...] = v"""
        self.mutate(ref, "out", st, value=v)
        if not self.write_through(ref, v, st, "out") and ref.id not in self.slices:
            self.unmodel("store-through", ref)
            for l in {x.id: x for x in tm.find_ops(ref, "loc")}.values():
                self.set_content(l, unk("store", self.deref(l, st)), st)

    # control flow ----------------------------------------------------------
    def merge(self, c, a, b, base_pc, base_lits):
        """join of states a (c true) and b (c false)"""
        if a is None and b is None:
            return None
        if a is None:
            return b
        if b is None:
            return a
        st = State({}, {}, base_pc, base_lits)
        st.env = self.merge_dict(c, a.env, b.env, UNBOUND)
        st.heap = self.merge_dict(c, a.heap, b.heap, None)
        # conditions assumed beyond the branch condition on both sides
        ra = conj_pc(a.pc[len(base_pc) + 1:])
        rb = conj_pc(b.pc[len(base_pc) + 1:])
        r = ite(c, ra, rb)
        if r is not TRUE:
            st.assume(r)
        return st

    def merge_dict(self, c, a, b, missing):
        out = {}
        for k in a.keys() | b.keys():
            x, y = a.get(k, missing), b.get(k, missing)
            if x is y:
                out[k] = x
            elif x is None or y is None:
                have = y if x is None else x
                dflt = self.initial_cell(k, a, b) if isinstance(have, T) else None
                if dflt is None:
                    out[k] = have
                else:
                    out[k] = ite(c, dflt, have) if x is None else ite(c, have, dflt)
            elif not isinstance(x, T):
                out[k] = x
            else:
                if isinstance(k, tuple) and k[0] == "f" and (k not in a or k not in b):
                    pass
                out[k] = ite(c, x, y)
        return out

    def initial_cell(self, k, a, b):
        """value before any write of a cell written on one of two joined paths only (None: a fresh object's cell)"""
        if not isinstance(k, tuple):
            return None
        if k[0] in ("f", "o"):
            ref = a.get(("ref", k[1]))
            if ref is None:
                ref = b.get(("ref", k[1]))
            if ref is not None and ref.op == "fresh" and k[0] == "o":
                return ref.a[0]
            if ref is None or ref.op not in ("sym", "attr", "index", "app"):
                return None
            if k[0] == "o":
                return ref
            v = self.get_attr(ref, k[2], State({}, {}))
            return None if v.op in ("bmeth", "bound") else v
        if k[0] == "g" and k[1] in self.mods:
            return self.mods[k[1]].env.get(k[2])
        if k == ("g", "numba", "threads"):
            return mk("nthreads", mk("sym", "numba_threads", ty=NAT), ty=NAT)
        return None

    def s_If(self, s, st, fr):
        c = self.cond(s.test, st, fr)
        if c is TRUE:
            return self.exec_block(s.body, st, fr)
        if c is FALSE:
            return self.exec_block(s.orelse, st, fr)
        a = st.fork(c)
        b = st.fork(lnot(c))
        ra = self.exec_block(s.body, a, fr)
        rb = self.exec_block(s.orelse, b, fr)
        return self.merge(c, ra, rb, st.pc, st.lits)

    def s_Match(self, s, st, fr):
        subj = self.eval(s.subject, st, fr)

        def pat(p):
            if isinstance(p, ast.MatchValue):
                return eq(subj, self.eval(p.value, st, fr))
            if isinstance(p, ast.MatchSingleton):
                return is_(subj, const(p.value))
            if isinstance(p, ast.MatchOr):
                r = FALSE
                for q in p.patterns:
                    r = lor(r, pat(q))
                return r
            if isinstance(p, ast.MatchAs) and p.pattern is None:
                if p.name:
                    st.env[p.name] = subj
                return TRUE
            return self.unmodel("match-pattern", subj)

        def rec(i, st):
            if i >= len(s.cases):
                return st
            cs = s.cases[i]
            c = pat(cs.pattern)
            if cs.guard is not None:
                c = land(c, self.cond(cs.guard, st, fr))
            c = restrict(truth(c), st.lits)
            if c is TRUE:
                return self.exec_block(cs.body, st, fr)
            if c is FALSE:
                return rec(i + 1, st)
            a, b = st.fork(c), st.fork(lnot(c))
            return self.merge(c, self.exec_block(cs.body, a, fr), rec(i + 1, b), st.pc, st.lits)

        return rec(0, st)

    def s_Continue(self, s, st, fr):
        fr.loops[-1].continues.append(st)
        return None

    def s_Break(self, s, st, fr):
        self.effect("break", {}, st)
        fr.loops[-1].breaks.append(st)
        return None

    def s_Try(self, s, st, fr):
        fid = None
        if s.finalbody:
            fid = len(self.finals) + 1
            self.finals[fid] = (self.cur_mod.name, s.lineno)
            self.prot.append(fid)
        nret = len(fr.returns)
        nbrk = [(l, len(l.breaks), len(l.continues)) for l in fr.loops]
        pre = st.copy()
        try:
            out = self.try_body(s, st, fr)
        finally:
            if fid is not None:
                self.prot.pop()
        if fid is not None:
            # normal exit, pending returns, pending breaks, exceptional exit
            done = False
            sav = self.fin
            if out is not None:
                self.fin = (fid, "normal")
                out = self.exec_block(s.finalbody, out, fr)
                done = True
            for r in fr.returns[nret:]:
                self.fin = (fid, "return")
                r2 = self.exec_block(s.finalbody, r[2], fr)
                if r2 is None:
                    r[2] = None
                else:
                    r[2] = r2
                done = True
            fr.returns = [r for r in fr.returns if r[2] is not None]
            for l, nb, nc in nbrk:
                for lst, k in ((l.breaks, nb), (l.continues, nc)):
                    for j in range(k, len(lst)):
                        self.fin = (fid, "return")
                        x = self.exec_block(s.finalbody, lst[j], fr)
                        if x is not None:
                            lst[j] = x
            self.fin = (fid, "exc")
            self.exec_block(s.finalbody, pre, fr)
            self.fin = sav
        return out

    s_TryStar = s_Try

    def try_body(self, s, st, fr):
        if not s.handlers:
            out = self.exec_block(s.body, st, fr)
            if out is not None and s.orelse:
                out = self.exec_block(s.orelse, out, fr)
            return out
        names = []
        for h in s.handlers:
            if h.type is None:
                names = None
                break
            for n in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                names.append(n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else "?")
        tc = TryCtx(names, fr)
        tc.atom = mk("exc", fr.mod.name, s.lineno, ty=BOOL)
        pre = st.copy()
        self.trys.append(tc)
        depth = len(self.trys)
        nret = len(fr.returns)
        try:
            out = self.exec_block(s.body, st, fr)
        finally:
            del self.trys[depth - 1:]
        ok = TRUE
        for c in tc.conds:
            ok = land(ok, c)
        is_import = bool(tc.conds) or all(isinstance(b, (ast.Import, ast.ImportFrom)) or isinstance(b, ast.Assign) and isinstance(b.value, ast.Constant)
                                          and all(isinstance(t, ast.Name) for t in b.targets) for b in s.body)
        if out is not None and s.orelse:
            o2 = out
            if ok is not TRUE:
                o2 = out.copy().assume(ok) if ok is not FALSE else None
            elif not is_import and (not tc.states or _may_raise(s.body)):
                o2 = out.copy().assume(lnot(tc.atom))
                ok = lnot(tc.atom)
            out = self.exec_block(s.orelse, o2, fr) if o2 is not None else None
            if o2 is not None and ok is not TRUE and out is not None:
                out.pc = pre.pc
                if tc.atom in tm.find_ops(ok, "exc"):
                    ok = TRUE
        if ok is FALSE:
            out = None
        # handlers
        results = []
        for h in s.handlers:
            hn = None
            if h.type is not None:
                hn = [n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else "?" for n in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
            starts = []
            if hn is None or set(hn) & {"ImportError", "ModuleNotFoundError", "Exception", "BaseException"}:
                if ok is not TRUE:
                    starts.append((lnot(ok), pre.fork(lnot(ok)) if ok is not FALSE else pre.copy()))
            for es in tc.states:
                starts.append((None, es))
            if not is_import and not (tc.states and not _may_raise(s.body)):
                self.exc_n += 1
                c = mk("exc", fr.mod.name, s.lineno, ty=BOOL)
                hs = pre.fork(c)
                self.havoc_assigned(s.body, hs, fr)
                starts.append((c, hs))
            for c, hs in starts:
                if h.name:
                    hs.env[h.name] = mk("excobj", hn[0] if hn else "Exception")
                self.effect("handler", {"types": tuple(hn) if hn else None, "cond": c}, hs)
                r = self.exec_block(h.body, hs, fr)
                results.append((c, hs, r))
        tc.swallows = any(r is not None for _, _, r in results)
        for c, hs, r in results:
            if r is None:
                if c is not None and c.op != "exc" and out is not None:
                    out = out.assume(lnot(c)) if c is not TRUE else None
                continue
            cc = c if c is not None else conj_pc(hs.pc[len(pre.pc):])
            r.pc = pre.pc + (cc,)
            if out is None:
                out = r
                out.pc = pre.pc
                if cc.op == "exc" or True:
                    pass
            else:
                o = out.copy()
                o.pc = pre.pc + (lnot(cc),)
                out = self.merge(cc, r, o, pre.pc, pre.lits)
        return out

    def havoc_assigned(self, body, st, fr):
        """variables assigned in a try body may or may not have been assigned when a handler starts"""
        for n in assigned_names(body):
            if n in st.env:
                pass

    def s_With(self, s, st, fr):
        return self.with_items(s, 0, st, fr)

    s_AsyncWith = s_With

    def with_items(self, s, i, st, fr):
        if i >= len(s.items):
            return self.exec_block(s.body, st, fr)
        it = s.items[i]
        cm = self.eval(it.context_expr, st, fr)
        # repository context managers
        if cm.op == "genctx":
            return self.with_gen(cm, s, i, st, fr)
        k = self.class_of(cm)
        if k is None and cm.op == "loc":
            c = st.heap.get(cm.id)
            if c is not None and c.op == "obj":
                k = self.classes.get(c.a[0])
        if k is not None and self.find_method(k, "__enter__")[0] is not None:
            v = self.call(self.get_attr(cm, "__enter__", st), [], {}, st, it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
            fid = len(self.finals) + 1
            self.finals[fid] = (self.cur_mod.name, s.lineno)
            self.prot.append(fid)
            nret = len(fr.returns)
            pre = st.copy()
            try:
                out = self.with_items(s, i + 1, st, fr)
            finally:
                self.prot.pop()
            sav = self.fin

            def leave(x, mode):
                self.fin = (fid, mode)
                try:
                    self.call(self.get_attr(cm, "__exit__", x), [NONEV, NONEV, NONEV], {}, x, it.context_expr)
                except Dead:
                    return None
                finally:
                    self.fin = sav
                return x
            if out is not None:
                out = leave(out, "normal")
            for r in fr.returns[nret:]:
                leave(r[2], "return")
            leave(pre, "exc")
            return out
        val = cm
        if cm.op == "tempdir":
            val = mk("tempname", cm.a[0], ty=STR)
            val = cm.a[1]
        if cm.op == "closing":
            val = cm.a[0]
        if it.optional_vars is not None:
            self.assign(it.optional_vars, val, st, fr)
        fid = len(self.finals) + 1
        self.finals[fid] = (self.cur_mod.name, s.lineno)
        self.prot.append(fid)
        nret = len(fr.returns)
        pre = st.copy()
        suppress = cm.op == "suppress"
        if suppress:
            tc = TryCtx(list(cm.a[0]), fr)
            self.trys.append(tc)
        try:
            out = self.with_items(s, i + 1, st, fr)
        finally:
            self.prot.pop()
            if suppress:
                self.trys.pop()
        if suppress:
            c = mk("exc", fr.mod.name, s.lineno, ty=BOOL)
            if out is None:
                out = pre
            else:
                o = out.copy()
                o.pc = pre.pc + (lnot(c),)
                p = pre.copy()
                p.pc = pre.pc + (c,)
                out = self.merge(c, p, o, pre.pc, pre.lits)
        # closing effect of library context managers
        sav = self.fin
        for x, mode in ([(out, "normal")] if out is not None else []) + [(r[2], "return") for r in fr.returns[nret:]] + [(pre, "exc")]:
            self.fin = (fid, mode)
            self.effect("ctx_exit", {"cm": cm, "ref": val}, x)
        self.fin = sav
        return out

    def with_gen(self, cm, s, i, st, fr):
        """with over a @contextmanager generator of the repository: inline its body around ours"""
        f = self.funcs[cm.a[0].a[0]]
        args = cm.a[1]
        outer = self

        state = {"n": 0, "out": None}

        def on_yield(v, gst, gfr):
            state["n"] += 1
            genv = gst.env
            gst.env = state["caller_env"]
            if s.items[i].optional_vars is not None:
                outer.assign(s.items[i].optional_vars, v, gst, fr)
            savestack = outer.stack
            savemod = outer.cur_mod
            outer.cur_mod = fr.mod
            nret = len(fr.returns)
            r = outer.with_items(s, i + 1, gst, fr)
            outer.cur_mod = savemod
            if len(fr.returns) > nret or r is None:
                if r is None:
                    # the with-body returned: keep running the generator for its effects
                    state["dead"] = True
                    r = gst
            state["caller_env"] = r.env
            r.env = genv
            return r

        gfr = Frame(f, f.mod)
        gfr.on_yield = on_yield
        gst = State(dict(args_env(cm)), st.heap, st.pc, st.lits)
        state["caller_env"] = st.env
        self.stack.append((f.qual, self.cur_line))
        self.analysed_funcs.add(f.qual)
        sm = self.cur_mod
        self.cur_mod = f.mod
        try:
            r = self.exec_block(f.node.body, gst, gfr)
        finally:
            self.stack.pop()
            self.cur_mod = sm
        if r is None and gfr.returns:
            r = gfr.returns[-1][2]
        if r is None:
            return None
        if state.get("dead"):
            return None
        r.env = state["caller_env"]
        return r

    # loops ------------------------------------------------------------------
    def s_For(self, s, st, fr):
        it = self.eval(s.iter, st, fr)
        return self.loop(it, s.target, lambda stt, f: self.exec_block(s.body, stt, f), s.body, st, fr, s, s.orelse)

    s_AsyncFor = s_For

    def loop(self, it, target, bodyfn, bodyast, st, fr, node, orelse=()):
        N, guard, elem, var, lit = self.iterate(it, st)
        n = numval(N)
        if lit is None and guard is TRUE and n is not None and 0 < n <= 4:
            lit = [subst(elem, {var.a[0]: const(i)}) for i in range(int(n))]
        if lit is not None and len(lit) <= self.max_unroll and bodyast is not None:
            # literal sequence: unroll
            lc = LoopCtx()
            fr.loops.append(lc)
            self.loops.append(("unrolled", node.lineno))
            pc0, lits0 = st.pc, st.lits
            try:
                exits = []
                for e in lit:
                    lc.continues = []
                    base_pc, base_lits = st.pc, st.lits
                    self.assign(target, e, st, fr)
                    nb = len(lc.breaks)
                    r = bodyfn(st, fr)
                    states = ([r] if r is not None else []) + lc.continues
                    st = self.join_states(states, base_pc, base_lits)
                    for b in lc.breaks[nb:]:
                        exits.append(b)
                    if st is None:
                        break
                if orelse and st is not None:
                    fr.loops.pop()
                    try:
                        st = self.exec_block(orelse, st, fr)
                    finally:
                        fr.loops.append(lc)
                if exits:
                    st = self.join_states(exits + ([st] if st is not None else []), pc0, lits0)
                return st
            finally:
                fr.loops.pop()
                self.loops.pop()
        return self.solve_loop(N, guard, elem, var, target, bodyfn, bodyast, st, fr, node, orelse)

    def join_states(self, states, base_pc, base_lits):
        states = [s for s in states if s is not None]
        if not states:
            return None
        r = states[-1]
        n = len(base_pc)
        rest = states[:-1]
        if not rest:
            return r
        for s in reversed(rest):
            c = conj_pc(s.pc[n:])
            a = s.copy()
            a.pc = base_pc + (c,)
            b = r.copy()
            b.pc = base_pc + (lnot(c),)
            r = self.merge(c, a, b, base_pc, base_lits)
        return r

    def iterate(self, it, st):
        """-> (N, guard, element term, lv, literal list or None)"""
        d = self.deref(it, st)
        v = fresh()
        return self.iter_term(d, v, st)

    def iter_term(self, d, v, st):
        if d.op in ("list", "tuple"):
            return const(len(d.a[0])), TRUE, index(d, v), v, list(d.a[0])
        if d.op == "nt":
            return const(len(d.a[1])), TRUE, index(d, v), v, list(d.a[1])
        if d.op == "dict":
            ks = [k for k, _ in d.a[0]]
            return const(len(ks)), TRUE, index(keys_(d), v), v, ks
        if d.op == "comp":
            N, (c, b), v2 = open_binder(d)
            return N, c, b, v2, None
        if d.op == "items" and d.a[0].op == "dict":
            return const(len(d.a[0].a[0])), TRUE, unk("items"), v, [ttuple([k, x]) for k, x in d.a[0].a[0]]
        if d.op == "values" and d.a[0].op == "dict":
            return const(len(d.a[0].a[0])), TRUE, unk("values"), v, [x for k, x in d.a[0].a[0]]
        if d.op == "keys" and d.a[0].op == "dict":
            return const(len(d.a[0].a[0])), TRUE, unk("keys"), v, [k for k, x in d.a[0].a[0]]
        if d.op == "enum":
            N, g, e, v2, lit = self.iter_term(self.deref(d.a[0], st), v, st)
            if lit is not None:
                return N, g, e, v2, [ttuple([add(d.a[1], const(i)), x]) for i, x in enumerate(lit)]
            if g is TRUE:
                return N, g, ttuple([add(d.a[1], v2), e]), v2, None
            cnt = mk("rank", v2, fv=v2.fv)
            return N, g, ttuple([self.unmodel("enumerate-filtered", v2), e]), v2, None
        if d.op == "zipn":
            parts = [self.iter_term(self.deref(x, st), v, st) for x in d.a[0]]
            if all(p[4] is not None for p in parts):
                n = min(len(p[4]) for p in parts)
                return const(n), TRUE, unk("zip"), v, [ttuple([p[4][i] for p in parts]) for i in range(n)]
            if all(p[1] is TRUE for p in parts):
                es = []
                Ns = {}
                for p in parts:
                    es.append(subst(p[2], {p[3].a[0]: v}) if p[3] is not v else p[2])
                    Ns[p[0].key] = p[0]
                N = list(Ns.values())[0]
                if len(Ns) > 1:
                    N = self.zip_len(list(Ns.values()))
                return N, TRUE, ttuple(es), v, None
            # same guard & domain: fuse
            if len({p[0].key for p in parts}) == 1:
                gs = {(subst(p[1], {p[3].a[0]: v})).key for p in parts}
                if len(gs) == 1:
                    return parts[0][0], subst(parts[0][1], {parts[0][3].a[0]: v}), ttuple([subst(p[2], {p[3].a[0]: v}) for p in parts]), v, None
        if d.op == "mapf":
            parts = self.iter_term(d.a[1], v, st)
        if d.op == "file":
            cur = st.heap.get(("cur", d.id))
            st.heap[("cur", d.id)] = mk("unk", "position", ty=NAT)
            binary = isinstance(d.a[1], T) and d.a[1].op == "const" and "b" in str(d.a[1].a[0])
            if cur is not None and is_zero(cur):
                return tm.nlines(d), TRUE, mk("fline", d, v, fv=v.fv, ty=BYTES if binary else STR), v, None
            if cur is not None and tm.numval(cur) is not None:
                # the lines after those already read
                i = tm.add(v, cur)
                return tm.sub(tm.nlines(d), cur), TRUE, mk("fline", d, i, ty=BYTES if binary else STR), v, None
        if kind(d) == "dict":
            ks = keys_(d)
            return length(d), TRUE, index(ks, v), v, list(ks.a[0]) if ks.op == "list" else None
        if kind(d) == "set":
            s = setseq(d)
            return length(s), TRUE, index(s, v), v, list(s.a[0]) if s.op == "list" else None
        return length(d), TRUE, index(d, v), v, None

    def zip_len(self, Ns):
        return mk("min", tuple(sorted(Ns, key=lambda t: t.key)), ty=NAT)

    def solve_loop(self, N, guard, elem, var, target, bodyfn, bodyast, st, fr, node, orelse=(), while_cond=None):
        if is_zero(N):
            return st
        names = assigned_names(bodyast) | target_names(target) if bodyast is not None else target_names(target)
        names = {n for n in names if n not in fr.globals_}
        heapmod = set()
        minloc = self.loc_n + 1
        L = fresh("L").a[0]
        for attempt in range(8):
            eff_n = len(self.effects)
            seq_n = self.seq
            ret_n = len(fr.returns)
            unm = dict(self.unmodelled)
            b = st.copy()
            mus = {}
            for n in sorted(names):
                if n in st.env and st.env[n] is not UNBOUND and n not in target_names(target):
                    init = st.env[n]
                    m = mk("mu", L, n, ty=init.ty if init.op != "phi" or init.ty else init.ty)
                    if init.op == "loc" or kind(init) in ("list", "dict", "set", "array", "obj", "func", "file", "module") and init.op != "const":
                        # reference: only a mu when it is rebound in the body
                        m = mk("mu", L, n, ty=init.ty)
                    mus[("v", n)] = (m, init)
                    b.env[n] = m
            for k in heapmod:
                init = st.heap[k]
                m = mk("mu", L, str(k), ty=init.ty)
                mus[("h", k)] = (m, init)
                b.heap[k] = m
            # references: keep identity of containers held by variables that the body does not rebind
            if guard is not TRUE:
                b.assume(guard)
            pcbase = b.pc
            litbase = b.lits
            lc = LoopCtx()
            fr.loops.append(lc)
            self.loops.append((L, N, var, node.lineno if node is not None else 0, self.loc_n))
            try:
                if target is not None:
                    self.assign(target, elem, b, fr)
                if while_cond is not None:
                    wc = while_cond(b, fr)
                    if wc is FALSE:
                        fr.loops.pop()
                        self.loops.pop()
                        return st
                    if wc is not TRUE:
                        b.assume(wc)
                else:
                    wc = TRUE
                pcbase2 = b.pc
                r = bodyfn(b, fr)
            except Dead:
                r = None
            finally:
                if fr.loops and fr.loops[-1] is lc:
                    fr.loops.pop()
                if self.loops and self.loops[-1][0] == L:
                    self.loops.pop()
            states = ([r] if r is not None else []) + lc.continues
            end = self.join_states(states, pcbase2, litbase)
            allst = states + lc.breaks
            # discover heap cells mutated in the body
            newmod = set()
            for s2 in allst:
                for k, v in s2.heap.items():
                    if k in st.heap and k not in heapmod and st.heap[k] is not v and isinstance(v, T):
                        newmod.add(k)
                    elif k not in st.heap and isinstance(k, tuple) and k[0] in ("f", "o", "g") and isinstance(v, T):
                        # first write to a symbolic cell
                        if k[0] == "o":
                            base = s2.heap.get(("ref", k[1]), self.refs.get(k[1]))
                            if base is not None and base.op in ("fresh", "jloads") and var is not None and var.a[0] in base.fv:
                                continue            # an object made anew in every iteration
                            base = base.a[0] if base is not None and base.op == "fresh" else self.term_by_id(k[1], v)
                            st.heap[k] = base if base is not None else unk("overlay")
                            newmod.add(k)
                        elif k[0] == "f" and not self.is_new_loc(k[1], minloc):
                            ref = s2.heap.get(("ref", k[1]))
                            if ref is not None and ref.op in ("sym", "attr"):
                                st.heap[k] = mk("attr", ref, k[2])
                                newmod.add(k)
            # variable whose value is a container reference that was rebound is handled through its mu
            drop = set()
            for key, (m, init) in mus.items():
                if key[0] == "v" and end is not None:
                    nv = end.env.get(key[1])
                    if nv is m and not lc.breaks:
                        drop.add(key[1])
            if (newmod or drop) and attempt < 7:
                heapmod |= newmod
                names -= drop
                del self.effects[eff_n:]
                self.seq = seq_n
                del fr.returns[ret_n:]
                self.unmodelled = unm
                continue
            break
        # resolve per-iteration allocations
        nexts = {}
        rbreak = None
        if end is not None:
            for key, (m, init) in mus.items():
                v = end.env.get(key[1], UNBOUND) if key[0] == "v" else end.heap.get(key[1])
                nexts[key] = self.resolve_new(v, end, minloc) if not (v.op == "loc" and v.a[0] < minloc) else v
        rets = fr.returns[ret_n:]
        rbreaks = lc.breaks
        after = st.copy()
        # explicit raises / returns inside the loop: conditions that hold for every iteration that completes
        cont_cond = TRUE
        if end is not None:
            cont_cond = conj_pc(end.pc[len(pcbase2):])
        if while_cond is not None:
            return self.finish_while(after, mus, nexts, wc, end, lc, rets, N, guard, var, node, fr, names, target, minloc)
        if rbreaks:
            return self.finish_break(after, mus, nexts, end, rbreaks, N, guard, var, fr, minloc, pcbase2, target, orelse, node)
        # returns inside the loop
        if rets:
            rc = FALSE
            val = None
            for pc, v, s2 in rets:
                c = conj_pc(pc[len(pcbase2):])
                val = self.resolve_new(v, s2, minloc) if val is None else ite(c, self.resolve_new(v, s2, minloc), val)
                rc = lor(rc, c)
            found = anyc(N, land(guard, rc), var)
            if var.a[0] in val.fv:
                first = mkbind("firstc", N, (land(guard, rc), val), var, ty=val.ty)
            else:
                first = val
            del fr.returns[ret_n:]
            if has_mu(rc, L) or has_mu(val, L):
                first = self.unmodel("return-in-loop-with-state")
                found = self.unmodel("return-in-loop-cond")
            rs = after.fork(found) if found is not TRUE else after.copy()
            fr.returns.append([rs.pc, first, rs])
            if end is None and guard is TRUE and rc is TRUE:
                after.assume(lnot(found))
            else:
                after.assume(lnot(found))
        elif cont_cond is not TRUE and not has_mu(cont_cond, L):
            bad = anyc(N, land(guard, lnot(cont_cond)), var)
            if bad is not FALSE:
                after.assume(lnot(bad))
        if end is None and not rets:
            # body never completes: loop passes only when empty
            after.assume(lnot(anyc(N, guard, var)))
            return self.loop_else(after, orelse, fr)
        sol = self.solve(mus, nexts, N, guard, var, L)
        for key, v in sol.items():
            if key[0] == "v":
                after.env[key[1]] = v
            else:
                after.heap[key[1]] = v
        # variables first assigned in the body
        if end is not None:
            for n in names | target_names(target):
                if ("v", n) in mus:
                    continue
                v = end.env.get(n)
                if v is None or v is UNBOUND:
                    continue
                v = self.resolve_new(v, end, minloc)
                v = self.close_mus(v, sol_inloop(self, mus, nexts, sol, N, guard, var, L))
                if has_mu(v, L):
                    v = self.unmodel("loop-last-value")
                lastv = last_value(N, guard, v, var)
                after.env[n] = lastv
            for k, v in end.heap.items():
                if k not in after.heap and isinstance(k, tuple) and k[0] == "new":
                    pass
        return self.loop_else(after, orelse, fr)

    def is_new_loc(self, tid, minloc):
        l = self.locs.get(tid)
        return l is not None and l.a[0] >= minloc

    def term_by_id(self, tid, v):
        for x in subterms(v):
            if x.id == tid:
                return x
        return self.overlay_refs.get(tid) if hasattr(self, "overlay_refs") else None

    def loop_else(self, st, orelse, fr):
        if orelse:
            return self.exec_block(orelse, st, fr)
        return st

    def resolve_new(self, v, st, minloc):
        return self.resolve(v, st, minloc) if v is not None else v

    def close_mus(self, v, table):
        if not table:
            return v
        return subst_map(v, {}, None, table)

    def finish_break(self, after, mus, nexts, end, breaks, N, guard, var, fr, minloc, pcb, target, orelse, node):
        # search loop: nothing carried, values assigned right before break
        L = None
        brk = None
        rc = FALSE
        for s in breaks:
            rc = lor(rc, conj_pc(s.pc[len(pcb):]))
        carried = False
        for key, (m, init) in mus.items():
            L = m.a[0]
            if key in nexts and nexts[key] is not m:
                carried = True
        mubad = any(has_mu(rc, m.a[0]) for m, _ in mus.values())
        if not carried and not mubad:
            found = anyc(N, land(guard, rc), var)
            b = self.join_states(breaks, pcb, {})
            bs = after.copy()
            for key, (m, init) in mus.items():
                v = b.env.get(key[1]) if key[0] == "v" else b.heap.get(key[1])
                v = self.resolve_new(v, b, minloc)
                v = self.close_mus(v, {mm.id: ii for mm, ii in mus.values()})
                fv = mkbind("firstc", N, (land(guard, rc), v), var, ty=v.ty) if var.a[0] in v.fv else v
                if key[0] == "v":
                    bs.env[key[1]] = fv
                else:
                    bs.heap[key[1]] = fv
            for n in assigned_in_state(b) - set(after.env):
                v = self.resolve_new(b.env[n], b, minloc)
                bs.env[n] = mkbind("firstc", N, (land(guard, rc), v), var, ty=v.ty) if var.a[0] in v.fv else v
            base_pc, base_lits = after.pc, after.lits
            es = after.copy()
            es.assume(lnot(found))
            bs.assume(found)
            es = self.loop_else(es, orelse, fr)
            if es is None:
                bs.pc = base_pc + (found,)
                return bs
            es.pc = base_pc + (lnot(found),)
            bs.pc = base_pc + (found,)
            return self.merge(found, bs, es, base_pc, base_lits)
        # carried state with break: opaque
        for key, (m, init) in mus.items():
            u = self.unmodel("break-loop", init)
            u = mk("unk", "break-loop@%s" % (node.lineno if node else 0), init, const(str(key[1])), ty=init.ty)
            if key[0] == "v":
                after.env[key[1]] = u
            else:
                after.heap[key[1]] = u
        for s in breaks + ([end] if end is not None else []):
            for n in assigned_in_state(s) - set(after.env):
                after.env[n] = mk("unk", "break-loop-var", const(n))
        return after

    def s_While(self, s, st, fr):
        v = fresh("w")
        N = mk("unk", "while", ty=NAT)
        return self.solve_loop(N, TRUE, NONEV, v, None, lambda stt, f: self.exec_block(s.body, stt, f), s.body, st, fr, s, s.orelse,
                               while_cond=lambda stt, f: self.cond(s.test, stt, f))

    def finish_while(self, after, mus, nexts, wc, end, lc, rets, N, guard, var, node, fr, names, target, minloc):
        # loop counter idiom: i = a; while i < n: ...; i += 1 (the number of lines read from a file counts like i)
        keys = sorted(mus, key=str)
        counter = None
        stop = None
        if wc is TRUE and len(lc.breaks) == 1 and end is not None:
            # while True: ...; if c: break; ...
            s0 = lc.breaks[0]
            c = conj_pc(s0.pc[len(after.pc):])
            clean = all((s0.env.get(k[1]) if k[0] == "v" else s0.heap.get(k[1])) is m or k in nexts and k[0] == "h" and isinstance(k[1], tuple) and k[1][0] == "cur"
                        for k, (m, _) in mus.items())
            if clean:
                stop, wc = s0, lnot(c)
        if (not lc.breaks or stop is not None) and not rets and end is not None:
            for key in keys:
                m, init = mus[key]
                if key in nexts and kind(m) == "int":
                    d = sub(nexts[key], m)
                    if is_const(d, 1):
                        bound = upper_bound(wc, m)
                        if bound is not None:
                            counter = (key, m, init, bound)
        if counter is not None:
            key, m, init, bound = counter
            n = sub(bound, init)
            if is_zero(init) and bound.ty is NAT:
                n = bound
            table = {m.id: add(init, var)}
            mus2 = {k: v for k, v in mus.items() if k != key}
            nx2 = {k: self.close_mus(v, table) for k, v in nexts.items() if k != key}
            L = m.a[0]
            sol = self.solve(mus2, nx2, n, TRUE, var, L)
            for k, v in sol.items():
                (after.env if k[0] == "v" else after.heap)[k[1]] = v
            (after.env if key[0] == "v" else after.heap)[key[1]] = add(init, n)
            for s in ([stop] if stop is not None else []) + [end]:
                for v in assigned_in_state(s) - set(after.env):
                    after.env[v] = mk("unk", "while-var", const(v))
            return after
        for key, (m, init) in mus.items():
            nx = nexts.get(key)
            if nx is m and not lc.breaks:
                continue
            u = mk("whilev", const(str(key[1]) if key[0] == "v" else "cell"), init, ty=init.ty)
            if nx is not None and nx is not m:
                self.whiles[u.key] = (m, nx, wc)
            if key[0] == "h" and isinstance(key[1], tuple) and key[1][0] == "cur":
                u = mk("unk", "position", ty=NAT)
            self.unmodelled["while-loop"] = self.unmodelled.get("while-loop", 0) + 1
            if key[0] == "v":
                after.env[key[1]] = u
            else:
                after.heap[key[1]] = u
        for s in lc.breaks + ([end] if end is not None else []):
            for n in assigned_in_state(s) - set(after.env):
                after.env[n] = mk("unk", "while-var", const(n))
        if rets:
            table = {}
            for key, (m, init) in mus.items():
                u = after.env.get(key[1]) if key[0] == "v" else after.heap.get(key[1])
                table[m.id] = u if u is not None else init
            if wc is TRUE and not lc.breaks:
                # left by return only
                n = len(fr.returns) - len(rets)
                pc, v, s2 = rets[0]
                v = self.close_mus(self.resolve_new(v, s2, minloc), table) if len(rets) == 1 else self.unmodel("return-in-while")
                del fr.returns[n:]
                fr.returns.append([after.pc, v, after.copy()])
                return None
            for r in rets:
                r[1] = self.close_mus(self.resolve_new(r[1], r[2], minloc), table)
        return after

    # ---- recurrence solving
    def solve(self, mus, nexts, N, guard, var, L):
        sol = {}
        table = {}    # mu id -> closed form inside an iteration
        pending = dict(nexts)
        progress = True
        while pending and progress:
            progress = False
            for key in sorted(pending, key=str):
                m, init = mus[key]
                nx = self.close_mus(pending[key], table)
                r = self.solve_one(m, init, nx, N, guard, var, L, table)
                if r is not None:
                    final, inloop = r
                    sol[key] = final
                    if inloop is not None:
                        table[m.id] = inloop
                    del pending[key]
                    progress = True
                    break
        if pending:
            # growing dictionaries may unlock others; everything else is an opaque joint recurrence
            keys = sorted(pending, key=lambda k: mus[k][0].key)
            ph = {mus[k][0].id: mk("muv", i, ty=mus[k][0].ty) for i, k in enumerate(keys)}
            table2 = dict(table)
            table2.update(ph)
            nx = []
            for k in keys:
                t = self.close_mus(pending[k], table)
                nx.append(subst_map(t, {}, None, ph))
            inits = [mus[k][1] for k in keys]
            for i, k in enumerate(keys):
                sol[k] = fold(N, guard, i, tuple(inits), tuple(nx), var)
        # leftovers: solutions mentioning unresolved mus of this loop
        for k in list(sol):
            v = self.close_mus(sol[k], table)
            if has_mu(v, L):
                v = mk("unk", "loop-carried", mus[k][1], ty=mus[k][1].ty)
                self.unmodelled["loop-carried"] = self.unmodelled.get("loop-carried", 0) + 1
            sol[k] = v
        self._last_table = table
        return sol

    def solve_one(self, m, init, nx, N, guard, var, L, table):
        if nx is m:
            return init, init
        if kind(m) == "dict":
            if any(x.a[1] is m for x in tm.find_ops(nx, "in")) and same_keys(nx, m):
                # no key is added or removed: asking for one has the same answer in every iteration
                nx = same_answers(nx, m, init)
        if not has_mu(nx, L):
            # overwritten in every iteration
            lv_ = last_value(N, guard, nx, var, init)
            # value seen at the start of an iteration: previous iteration's value
            return lv_, None
        mus_in = mus_of(nx, L)
        if mus_in - {m.id}:
            # depends on other recurrences as well
            r = self.solve_grow_dep(m, nx, L)
            return None
        # numeric accumulation
        k = kind(init)
        if k in ("int", "float", "array", "bool") or (k is None and nx.op in ("poly", "phi")):
            d = map_leaves(nx, lambda l: self.sum_delta(l, m))
            if d is not None and not has_mu(d, L):
                cond, body = TRUE, d
                total = sumc(N, guard, body, var)
                if var.a[0] not in d.fv and guard is TRUE:
                    inl = add(init, mul(d, var))
                else:
                    inl = add(init, self.prefix(N, guard, d, var))
                return add(init, total), inl
            # product / max / min accumulation
            for op in ("max", "min"):
                r = self.fold_minmax(op, m, nx, L)
                if r is not None:
                    return minmax(op, [init, mk(op + "of", comp(N, guard, r, var), ty=init.ty)]), None
        # list append/extend
        d = map_leaves(nx, lambda l: self.list_delta(l, m))
        if d is not None and not has_mu(d, L):
            seq = self.seq_from_delta(d, N, guard, var)
            inl = None
            if guard is TRUE and seq.op == "comp" and seq.a[1] is TRUE:
                inl = mk("prefix_list", init, seq, var, ty=init.ty)
            return concat(init, seq), inl
        # sets
        d = map_leaves(nx, lambda l: self.set_delta(l, m))
        if d is not None and not has_mu(d, L):
            seq = self.seq_from_delta(d, N, guard, var)
            return mkset(concat(seqof(init), seq)), None
        # a record with constant keys: one recurrence per key
        r = self.solve_record(m, init, nx, N, guard, var, L)
        if r is not None:
            return r
        # dictionary / array stores
        r = self.solve_store(m, init, nx, N, guard, var, L)
        if r is not None:
            return r
        # scatter-add
        r = self.solve_sadd(m, init, nx, N, guard, var, L)
        if r is not None:
            return r
        # growing dictionary: d[k] = len(d) when k not in d
        r = self.solve_grow(m, init, nx, N, guard, var, L)
        if r is not None:
            return r
        return None

    def solve_record(self, m, init, nx, N, guard, var, L):
        if init.op != "dict" or not init.a[0] or not all(k.op == "const" for k, _ in init.a[0]):
            return None
        own = {k.key for k, _ in init.a[0]}

        def field(t, k):
            if t is m:
                return index(m, k)
            if t.op == "phi":
                return ite(t.a[0], field(t.a[1], k), field(t.a[2], k))
            if t.op == "setitem" and t.a[1].op == "const" and t.a[1].key in own:
                return t.a[2] if t.a[1].key == k.key else field(t.a[0], k)
            raise KeyError
        subs, mus2, nx2 = {}, {}, {}
        for k, v in init.a[0]:
            x = mk("mu", L, "%s[%s]" % (m.a[1], show(k)), ty=v.ty)
            subs[index(m, k).id] = x
            mus2[("k", k.key)] = (x, v)
        try:
            for k, v in init.a[0]:
                nx2[("k", k.key)] = subst_map(field(nx, k), {}, None, subs)
        except KeyError:
            return None
        if any(mus_of(t, L) - {x.id for x, _ in mus2.values()} for t in nx2.values()):
            return None
        sol = self.solve(mus2, nx2, N, guard, var, L)
        return mk("dict", tuple((k, sol[("k", k.key)]) for k, _ in init.a[0]), ty=init.ty), None

    def solve_grow_dep(self, m, nx, L):
        return None

    def fold_minmax(self, op, m, nx, L):
        if nx.op == op and any(x is m for x in nx.a[0]):
            rest = [x for x in nx.a[0] if x is not m]
            if rest and not any(has_mu(x, L) for x in rest):
                return minmax(op, rest)
        return None

    def prefix(self, N, guard, d, var):
        """sum of d over iterations before var"""
        N2 = mk("before", var, fv=var.fv, ty=NAT)
        v2 = fresh()
        seq = comp(N, guard, d, var) if guard is TRUE else comp(N, TRUE, ite(guard, d, ZERO), var)
        return index(mk("offs", seq, ty=Ty("array", NAT if d.ty is NAT else None)), var)

    def sum_delta(self, leaf, m):
        if leaf is m:
            return ZERO
        p = as_poly(leaf)
        mono = ((m, 1),)
        if p.get(mono) == 1:
            d = sub(leaf, m)
            return d
        return None

    def list_delta(self, leaf, m):
        if leaf is m:
            return tlist([])
        if leaf.op == "concat_l" and leaf.a[0][0] is m:
            r = tlist([])
            for x in leaf.a[0][1:]:
                r = concat(r, x)
            return r
        return None

    def set_delta(self, leaf, m):
        if leaf is m:
            return tlist([])
        if leaf.op == "mkset":
            s = leaf.a[0]
            if s.op == "concat_l" and s.a[0][0].op == "seqof" and s.a[0][0].a[0] is m:
                r = tlist([])
                for x in s.a[0][1:]:
                    r = concat(r, x)
                return r
        return None

    def seq_from_delta(self, d, N, guard, var):
        lens = set()
        for lits, l in leaves(d):
            lens.add(len(l.a[0]) if l.op == "list" else None)
        if lens == {0}:
            return tlist([])
        if lens <= {0, 1}:
            cond = map_leaves(d, lambda l: TRUE if l.a[0] else FALSE)
            body = collapse(d, lambda l: l.a[0][0] if l.a[0] else None)
            return comp(N, land(guard, cond), body, var)
        return flat(comp(N, guard, d, var))

    def solve_store(self, m, init, nx, N, guard, var, L):
        ks = []

        def chk(l):
            if l is m:
                return NONEV
            if l.op == "setitem" and l.a[0] is m:
                return ttuple([l.a[1], l.a[2]])
            if l.op == "sslice" and l.a[0] is m:
                return mk("ssl", l.a[1], l.a[2], l.a[3])
            return None
        d = map_leaves(nx, chk)
        if d is None:
            return None
        kinds = {l.op for _, l in leaves(d)}
        if "ssl" in kinds:
            if kinds != {"ssl"} or d.op == "phi":
                return None
            lo, hi, v = d.a
            # contiguous fill: hi - lo == len(v), lo == offset of lens
            if has_mu(d, L):
                return None
            n = length(v)
            if lo.op == "index" and lo.a[0].op == "offs" and lo.a[1] is var:
                seq = lo.a[0].a[0]
                if index(seq, var).key == sub(hi, lo).key:
                    if kind(v) in ("array", "list") or v.op in ("comp", "gather"):
                        if n.key == sub(hi, lo).key:
                            return mk("filled", init, flat(comp(N, guard, v, var)), ty=init.ty), None
                        return None
                    w = fresh()
                    return mk("filled", init, flat(comp(N, guard, comp(sub(hi, lo), TRUE, v, w), var)), ty=init.ty), None
            if is_zero(lo) or is_const(lo, None):
                return None
            return None
        cond = map_leaves(d, lambda l: TRUE if l.op == "tuple" else FALSE)
        pair = collapse(d, lambda l: l if l.op == "tuple" else None)
        k = index(pair, ZERO)
        v = index(pair, ONE)
        kd = kind(init)
        if kd == "dict" and init.op == "dict" and not init.a[0] and guard is TRUE and has_mu(v, L) and not has_mu(k, L) \
                and distinct_key(k, var):
            # keys are distinct, so the dictionary holds one entry per earlier iteration and no key is present before its own
            fresh_ = {length(m).id: var, contains_(k, m).id: FALSE}
            c2, v2 = subst_map(cond, {}, None, fresh_), subst_map(v, {}, None, fresh_)
            if c2 is TRUE and not has_mu(v2, L):
                cond, v = c2, v2
        if has_mu(k, L) or has_mu(cond, L):
            return None
        if has_mu(v, L):
            # a[k] = a[k] + e  -> scatter add
            cur = index(m, k)
            e = sub(v, cur) if v.op in ("poly", "index", "const") or True else None
            if e is not None and not has_mu(e, L) and kd in ("array", "dict", "list"):
                idx = comp(N, land(guard, cond), k, var)
                val = comp(N, land(guard, cond), e, var)
                return sadd(init, idx, val), None
            # counter: d[k] = d.get(k, 0) + e
            g = mk("dget", m, k, ZERO)
            e = sub(v, g)
            if not has_mu(e, L) and kd == "dict":
                idx = comp(N, land(guard, cond), k, var)
                if init.op == "dict" and not init.a[0] and is_const(e, 1):
                    return counter(idx), None
            # elementwise in-place update a[i] = f(a[i])
            if k is var and guard is TRUE and cond is TRUE and kd in ("array", "list") and length(init).key == N.key:
                v2 = subst_map(v, {}, None, {cur.id: index(init, var)})
                if not has_mu(v2, L):
                    r = comp(N, TRUE, v2, var)
                    return (_asarr(r) if kd == "array" else r), None
            return None
        if kd == "dict":
            prs = comp(N, land(guard, cond), ttuple([k, v]), var)
            if init.op == "dict" and not init.a[0]:
                return mkdict_(prs, Ty("dict", v.ty)), None
            return mk("dmerge", init, mk("mkdict", prs), ty=Ty("dict")), None
        if k is var and guard is TRUE and length(init).key == N.key:
            r = comp(N, TRUE, ite(cond, v, index(init, var)), var)
            return (_asarr(r) if kd == "array" else r), None
        return mk("scatter", init, comp(N, land(guard, cond), k, var), comp(N, land(guard, cond), v, var), ty=init.ty), None

    def solve_sadd(self, m, init, nx, N, guard, var, L):
        def chk(l):
            if l is m:
                return NONEV
            if l.op == "sadd" and l.a[0] is m:
                return ttuple([l.a[1], l.a[2]])
            return None
        d = map_leaves(nx, chk)
        if d is None or has_mu(d, L):
            return None
        cond = map_leaves(d, lambda l: TRUE if l.op == "tuple" else FALSE)
        pair = collapse(d, lambda l: l if l.op == "tuple" else None)
        return sadd(init, flat(comp(N, land(guard, cond), index(pair, ZERO), var)),
                    flat(comp(N, land(guard, cond), index(pair, ONE), var))), None

    def solve_grow(self, m, init, nx, N, guard, var, L):
        # phi(in(k, m), m, setitem(m, k, len(m)))  [under further conditions not involving m]
        def walk(t):
            if t is m:
                return FALSE, None
            if t.op == "phi":
                c, a, b = t.a
                if c.op == "in" and c.a[1] is m:
                    k = c.a[0]
                    if a is m and b.op == "setitem" and b.a[0] is m and b.a[1].key == k.key and b.a[2].key == length(m).key:
                        return TRUE, k
                    return None
                ra, rb = walk(a), walk(b)
                if ra is None or rb is None or has_mu(c, L):
                    return None
                ks = [x for x in (ra[1], rb[1]) if x is not None]
                if len(ks) == 2 and ks[0].key != ks[1].key:
                    return None
                return ite(c, ra[0], rb[0]), ks[0] if ks else None
            if t.op == "grow" and t.a[0] is m and not has_mu(t.a[1], L):
                return TRUE, mk("seqk", t.a[1])
            return None
        r = walk(nx)
        if r is None or r[1] is None:
            return None
        cond, k = r
        if k.op == "seqk":
            seq = flat(comp(N, land(guard, cond), k.a[0], var))
        else:
            seq = comp(N, land(guard, cond), k, var)
        g = mk("grow", init, seq, ty=DICT)
        return g, mk("growing", g, m, ty=DICT)

    # ------------------------------------------------------------------ expressions
    def cond(self, e, st, fr):
        v = self.eval(e, st, fr)
        return restrict(truth(self.resolve_shallow(v, st)), st.lits)

    def resolve_shallow(self, v, st):
        return self.deref(v, st)

    def eval(self, e, st, fr):
        self.tick(e)
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.unmodel("expr-" + type(e).__name__)
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        return const(e.value)

    def e_Name(self, e, st, fr):
        n = e.id
        v = None
        if n not in fr.globals_:
            v = st.env.get(n)
        if v is None and fr.fn is not None and fr.fn.closure is not None and n not in fr.globals_:
            v = fr.fn.closure.get(n)
        if v is None:
            v = st.heap.get(("g", fr.mod.name, n))
        if v is None:
            v = fr.mod.env.get(n)
        if v is None and fr.caller_env is not None:
            v = fr.caller_env.get(n)
        if v is not None:
            if v.op == "lazy":
                m = self.get_module(v.a[0])
                v = m.env.get(v.a[1], v)
                if v.op == "lazy":
                    return self.unmodel("lazy-import")
            if v.op == "phi" and st.lits:
                v = restrict_top(v, st.lits)
            return v
        if n in BUILTINS:
            return mk("builtin", n)
        if n in EXC_PARENTS or n.endswith("Error") or n in ("Exception", "BaseException", "Warning", "UserWarning", "KeyboardInterrupt"):
            return mk("builtin", n)
        if n == "__version__":
            return mk("sym", "__version__", ty=STR)
        self.effect("name_error", {"name": n}, st)
        return self.unmodel("undefined-name", const(n))

    def e_NamedExpr(self, e, st, fr):
        v = self.eval(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def e_Starred(self, e, st, fr):
        return self.unmodel("starred")

    def seq_display(self, elts, st, fr):
        out, run = tlist([]), []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.deref(self.eval(x.value, st, fr), st)
                s = self.to_seq(v, st)
                out = concat(concat(out, tlist(run)), s if s.op != "tuple" else tlist(s.a[0]))
                run = []
            else:
                run.append(self.eval(x, st, fr))
        return concat(out, tlist(run))

    def e_List(self, e, st, fr):
        return self.alloc(st, self.seq_display(e.elts, st, fr))

    def e_Tuple(self, e, st, fr):
        s = self.seq_display(e.elts, st, fr)
        return mk("tuple", s.a[0]) if s.op == "list" else s

    def e_Set(self, e, st, fr):
        return self.alloc(st, mkset(self.seq_display(e.elts, st, fr)))

    def e_Dict(self, e, st, fr):
        d = mk("dict", (), ty=DICT)
        for k, v in zip(e.keys, e.values):
            vv = self.eval(v, st, fr)
            if k is None:
                d = dmerge(d, self.deref(vv, st))
            else:
                kk = self.resolve(self.eval(k, st, fr), st)
                d = setitem(d, kk, vv)
        return self.alloc(st, d)

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.resolve(self.eval(v.value, st, fr), st)
                if v.format_spec is not None:
                    x = mk("fmt", x, self.eval(v.format_spec, st, fr), ty=STR)
                else:
                    x = strof(x)
                parts.append(x)
        return cat(parts)

    def e_FormattedValue(self, e, st, fr):
        return strof(self.resolve(self.eval(e.value, st, fr), st))

    def e_Lambda(self, e, st, fr):
        pre = fr.fn.qual if fr.fn is not None else fr.mod.name
        return self.mkfunc(e, fr, st, pre + ".<lambda>")

    def e_IfExp(self, e, st, fr):
        c = self.cond(e.test, st, fr)
        return self.branch(c, st, lambda s: self.eval(e.body, s, fr), lambda s: self.eval(e.orelse, s, fr))

    def branch(self, c, st, ft, ff):
        c = restrict(c, st.lits)
        if c is TRUE:
            return ft(st)
        if c is FALSE:
            return ff(st)
        a, b = st.fork(c), st.fork(lnot(c))
        va = vb = None
        try:
            va = ft(a)
        except Dead:
            a = None
        try:
            vb = ff(b)
        except Dead:
            b = None
        if a is None and b is None:
            raise Dead()
        m = self.merge(c, a, b, st.pc, st.lits)
        st.env, st.heap, st.pc, st.lits = m.env, m.heap, m.pc, m.lits
        if a is None:
            return vb
        if b is None:
            return va
        return ite(c, va, vb)

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)

        def rec(i, s):
            v = self.eval(e.values[i], s, fr)
            if i == len(e.values) - 1:
                return v
            c = restrict(truth(self.deref(v, s)), s.lits)
            if isand:
                return self.branch(c, s, lambda x: rec(i + 1, x), lambda x: v if kind(v) != "bool" else FALSE)
            return self.branch(c, s, lambda x: v if kind(v) != "bool" else TRUE, lambda x: rec(i + 1, x))
        return rec(0, st)

    def e_UnaryOp(self, e, st, fr):
        v = self.deref(self.eval(e.operand, st, fr), st)
        if isinstance(e.op, ast.Not):
            return lnot(restrict(truth(v), st.lits))
        if isinstance(e.op, ast.USub):
            return neg(v)
        if isinstance(e.op, ast.UAdd):
            return v
        return mk("invert", v, ty=v.ty)

    def e_BinOp(self, e, st, fr):
        a = self.eval(e.left, st, fr)
        b = self.eval(e.right, st, fr)
        a, b = self.resolve(a, st), self.resolve(b, st)
        if isinstance(e.op, ast.Mod) and kind(a) == "str":
            return mk("fmtmod", a, b, ty=STR)
        if isinstance(e.op, ast.Div) and (kind(a) == "path" or kind(b) == "path"):
            return pjoin(a, b)
        if isinstance(e.op, (ast.Div, ast.FloorDiv)) and numval(b) is None and kind(a) not in ("array", "path") and kind(b) != "array":
            self.effect("div", {"num": a, "den": b}, st)
        r = self.binop(e.op, a, b, st)
        if kind(r) in ("array", "list", "set", "dict"):
            return self.alloc(st, r)
        return r

    def binop(self, op, a, b, st):
        if isinstance(op, ast.Add):
            return add(a, b)
        if isinstance(op, ast.Sub):
            if kind(a) == "set" or kind(b) == "set":
                return mk("sdiff", a, b)
            return sub(a, b)
        if isinstance(op, ast.Mult):
            return mul(a, b)
        if isinstance(op, ast.Div):
            return div(a, b)
        if isinstance(op, ast.Pow):
            n = numval(b)
            if n is not None and n.denominator == 1 and abs(n) <= 12:
                return power(a, int(n))
            return mk("pow", a, b, ty=FLOAT)
        if isinstance(op, ast.FloorDiv):
            x, y = numval(a), numval(b)
            if x is not None and y:
                return const(x // y)
            return mk("idiv", a, b)
        if isinstance(op, ast.Mod):
            x, y = numval(a), numval(b)
            if x is not None and y:
                return const(x % y)
            return mk("mod", a, b)
        if isinstance(op, ast.BitAnd):
            if kind(a) == "set" or kind(b) == "set":
                return sinter(a, b)
            if kind(a) == "bool" and kind(b) == "bool":
                return land(a, b)
        if isinstance(op, ast.BitOr):
            if kind(a) == "set" or kind(b) == "set":
                return mkset(concat(seqof(a), seqof(b)))
            if kind(a) == "dict" or kind(b) == "dict":
                return dmerge(a, b)
            if kind(a) == "bool" and kind(b) == "bool":
                return lor(a, b)
        if isinstance(op, ast.MatMult):
            return mk("matmul", a, b, ty=ARRAY)
        if isinstance(op, ast.RShift) and numval(b) is not None:
            return mk("idiv", a, const(2 ** int(numval(b))))
        if isinstance(op, ast.LShift) and numval(b) is not None:
            return mul(a, const(2 ** int(numval(b))))
        return mk("binop", type(op).__name__, a, b)

    def e_Compare(self, e, st, fr):
        left = self.eval(e.left, st, fr)
        res = TRUE
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st, fr)
            c = self.compare(op, left, right, st)
            if kind(c) == "array":
                return self.alloc(st, c)
            res = land(res, c)
            left = right
        return restrict(res, st.lits)

    def compare(self, op, a, b, st):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = is_(a, b)
            return r if isinstance(op, ast.Is) else lnot(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = contains_(self.resolve(a, st), self.resolve(b, st))
            return r if isinstance(op, ast.In) else lnot(r)
        a, b = self.resolve(a, st), self.resolve(b, st)
        s = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}[type(op)]
        if (kind(a) == "array" or kind(b) == "array") :
            return mk("acmp", s, a, b, ty=ARRAY)
        return cmp(s, a, b)

    def e_Attribute(self, e, st, fr):
        o = self.eval(e.value, st, fr)
        v = self.get_attr(o, e.attr, st)
        if v.op == "phi" and st.lits:
            v = restrict_top(v, st.lits)
        return v

    def eval_index(self, sl, st, fr):
        if isinstance(sl, ast.Tuple):
            parts = []
            for x in sl.elts:
                parts.append(self.slice_obj(x, st, fr) if isinstance(x, ast.Slice) else self.eval(x, st, fr))
            return ttuple(parts)
        if isinstance(sl, ast.Slice):
            return self.slice_obj(sl, st, fr)
        return self.eval(sl, st, fr)

    def slice_obj(self, sl, st, fr):
        f = lambda x: self.eval(x, st, fr) if x is not None else NONEV
        return mk("sliceobj", f(sl.lower), f(sl.upper), f(sl.step))

    def e_Subscript(self, e, st, fr):
        o = self.eval(e.value, st, fr)
        if o.op in ("ext", "builtin", "class"):
            return o      # typing generics
        k = self.obj_class(o, st)
        if k is not None and not k.is_nt and self.find_method(k, "__getitem__")[0] is not None:
            i = self.slice_obj(e.slice, st, fr) if isinstance(e.slice, ast.Slice) else self.eval(e.slice, st, fr)
            return self.call(self.get_attr(o, "__getitem__", st), [i], {}, st, e)
        d = self.deref(o, st)
        if isinstance(e.slice, ast.Slice):
            lo = self.eval(e.slice.lower, st, fr) if e.slice.lower else NONEV
            hi = self.eval(e.slice.upper, st, fr) if e.slice.upper else NONEV
            sp = self.eval(e.slice.step, st, fr) if e.slice.step else NONEV
            return self.slice_of(o, slice_(d, lo, hi, sp), d, st)
        i = self.resolve(self.eval_index(e.slice, st, fr), st)
        if i.op == "sliceobj":
            return self.slice_of(o, slice_(d, *i.a), d, st)
        if i.op == "tuple" and kind(d) in ("array", None):
            return self.nd_index(d, i)
        if d.op == "dict" and i.op == "const" and all(eq(k, i) is FALSE for k, _ in d.a[0]):
            self.do_raise("KeyError", i, st, e)
        r = self.subscript(d, i, st)
        return r

    def slice_of(self, o, v, d, st):
        """slicing an array gives a view, slicing a list a copy"""
        if kind(d) == "list":
            return self.alloc(st, v)
        if kind(d) == "array" and o.op == "loc":
            self.slices.setdefault(v.id, {})[o.id] = o
        return v

    def nd_index(self, d, i):
        parts = list(i.a[0])
        if len(parts) == 2 and parts[1].op == "sliceobj" and all(is_const(x, None) for x in parts[1].a):
            if parts[0].op == "sliceobj":
                return slice_(d, *parts[0].a)
            return index(d, parts[0])
        if all(kind(p) == "int" for p in parts):
            r = d
            for p in parts:
                r = index(r, p)
            return r
        return mk("ndindex", d, i, ty=ARRAY)

    def subscript(self, d, i, st):
        if d.op == "phi":
            return ite(d.a[0], self.subscript(d.a[1], i, st), self.subscript(d.a[2], i, st))
        if d.op == "growing":
            return index(d.a[0], i)
        if d.op == "loc":
            return self.subscript(self.deref(d, st), i, st)
        if kind(i) == "array" and kind(d) in ("array", None) and d.op != "dict":
            if i.ty is not None and i.op in ("acmp", "invert", "aeq"):
                return self.alloc(st, mk("mask", d, i, ty=ARRAY))
            return self.alloc(st, gather(d, i))
        return index(d, i)

    def obj_class(self, o, st):
        k = self.class_of(o)
        if k is None and o.op == "loc":
            c = st.heap.get(o.id)
            if c is not None and c.op == "obj":
                k = self.classes.get(c.a[0])
        return k

    def comp_loop(self, gens, i, st, fr, emit):
        if i == len(gens):
            emit(st)
            return st
        g = gens[i]
        it = self.eval(g.iter, st, fr)
        pseudo = g

        def body(s, f):
            for c in g.ifs:
                cc = self.cond(c, s, f)
                if cc is FALSE:
                    return s
                if cc is not TRUE:
                    a = s.fork(cc)
                    b = s.fork(lnot(cc))
                    r = self.comp_rest(gens, i, g.ifs.index(c) + 1, a, f, emit)
                    return self.merge(cc, r, b, s.pc, s.lits)
            return self.comp_loop(gens, i + 1, s, f, emit)
        names = target_names(g.target)
        node = g.target
        lit = None
        return self.loop_c(it, g.target, body, st, fr, node)

    def comp_rest(self, gens, i, j, st, fr, emit):
        g = gens[i]
        for c in g.ifs[j:]:
            cc = self.cond(c, st, fr)
            if cc is FALSE:
                return st
            if cc is not TRUE:
                a, b = st.fork(cc), st.fork(lnot(cc))
                r = self.comp_rest(gens, i, g.ifs.index(c) + 1, a, fr, emit)
                return self.merge(cc, r, b, st.pc, st.lits)
        return self.comp_loop(gens, i + 1, st, fr, emit)

    def loop_c(self, it, target, body, st, fr, node):
        saved = {n: st.env.get(n) for n in target_names(target)}
        for n in saved:
            st.env.pop(n, None)
        N, guard, elem, var, lit = self.iterate(it, st)
        if lit is not None and len(lit) <= self.max_unroll:
            for e in lit:
                self.assign(target, e, st, fr)
                r = body(st, fr)
                if r is None:
                    raise Dead()
                if r is not st:
                    st.env, st.heap, st.pc, st.lits = r.env, r.heap, r.pc, r.lits
            r = st
        else:
            r = self.solve_loop(N, guard, elem, var, target, body, [], st, fr, node)
        if r is None:
            raise Dead()
        for n, v in saved.items():
            if v is not None:
                r.env[n] = v
            else:
                r.env.pop(n, None)
        if r is not st:
            st.env, st.heap, st.pc, st.lits = r.env, r.heap, r.pc, r.lits
        return st

    def comp_acc(self, e, st, fr, push, init):
        acc = self.alloc(st, init)

        def emit(s):
            push(acc, s)
        self.comp_loop(e.generators, 0, st, fr, emit)
        return acc

    def e_ListComp(self, e, st, fr):
        def push(acc, s):
            v = self.eval(e.elt, s, fr)
            self.set_content(acc, concat(self.deref(acc, s), tlist([v])), s)
        return self.comp_acc(e, st, fr, push, tlist([]))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st, fr):
        def push(acc, s):
            v = self.resolve(self.eval(e.elt, s, fr), s)
            self.set_content(acc, mkset(concat(seqof(self.deref(acc, s)), tlist([v]))), s)
        return self.comp_acc(e, st, fr, push, mkset(tlist([])))

    def e_DictComp(self, e, st, fr):
        def push(acc, s):
            k = self.resolve(self.eval(e.key, s, fr), s)
            v = self.eval(e.value, s, fr)
            self.set_content(acc, setitem(self.deref(acc, s), k, v), s)
        return self.comp_acc(e, st, fr, push, mk("dict", (), ty=DICT))

    def e_Yield(self, e, st, fr):
        self.unmodel("yield-expr")
        return NONEV

    def e_Await(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_Slice(self, e, st, fr):
        return self.slice_obj(e, st, fr)

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, st, fr):
        self.call_sites += 1
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            cls = fr.fn.cls
            selfv = st.env.get(fr.fn.node.args.args[0].arg)
            return mk("super", cls.qual, selfv)
        recv = None
        if isinstance(e.func, ast.Attribute):
            recv = self.eval(e.func.value, st, fr)
            f = None
            k = self.obj_class(recv, st)
            name = e.func.attr
            if is_const(recv, None) and not name.startswith("__"):
                self.effect("attr_none", {"name": name}, st)
            elif recv.op == "func" and not name.startswith("__") and not self.funcs[recv.a[0]].node_decorated():
                self.effect("attr_none", {"name": name, "of": "the function " + self.funcs[recv.a[0]].qual}, st)
        else:
            f = self.eval(e.func, st, fr)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.deref(self.eval(a.value, st, fr), st)
                if v.op in ("list", "tuple"):
                    args.extend(v.a[0])
                elif v.op == "nt":
                    args.extend(v.a[1])
                else:
                    args.append(mk("starred", v))
            else:
                args.append(self.eval(a, st, fr))
        for k_ in e.keywords:
            v = self.eval(k_.value, st, fr)
            if k_.arg is None:
                d = self.deref(v, st)
                if d.op == "dict":
                    for kk, vv in d.a[0]:
                        if kk.op == "const" and isinstance(kk.a[0], str):
                            kwargs[kk.a[0]] = vv
                elif d.op == "delitem" or d.op in ("sym", "setitem", "unk", "dmerge", "call", "dictpop"):
                    kwargs["**"] = v
                else:
                    kwargs["**"] = v
            else:
                kwargs[k_.arg] = v
        self.tick(e)
        if recv is not None:
            return self.call_method(recv, e.func.attr, args, kwargs, st, e)
        return self.call(f, args, kwargs, st, e)

    def call_method(self, recv, name, args, kwargs, st, node):
        if recv.op == "phi":
            c = recv.a[0]
            return self.branch(c, st, lambda s: self.call_method(recv.a[1], name, args, kwargs, s, node),
                               lambda s: self.call_method(recv.a[2], name, args, kwargs, s, node))
        if recv.op in ("module", "ext", "class", "super", "builtin"):
            if recv.op == "builtin":
                return self.builtin_method(recv, name, args, kwargs, st, node)
            return self.call(self.get_attr(recv, name, st), args, kwargs, st, node)
        k = self.obj_class(recv, st)
        if k is not None or ("f", recv.id, name) in st.heap:
            v = self.get_attr(recv, name, st)
            if v.op != "bmeth" and not (v.op == "attr" and k is None):
                if k is not None and k.is_nt and v.op == "attr":
                    pass
                return self.call(v, args, kwargs, st, node)
        return self.models.method(self, recv, name, args, kwargs, st, node)

    def builtin_method(self, recv, name, args, kwargs, st, node):
        b = recv.a[0]
        if b == "str" and name == "join":
            return self.models.method(self, args[0], "join", args[1:], kwargs, st, node)
        if b == "dict" and name == "fromkeys":
            seq = self.to_seq(self.deref(args[0], st), st)
            v = fresh()
            val = args[1] if len(args) > 1 else NONEV
            N, g, e, v, lit = self.iter_term(seq, v, st)
            if lit is not None:
                d = mk("dict", (), ty=DICT)
                for x in lit:
                    d = setitem(d, x, val)
                return self.alloc(st, d)
            return self.alloc(st, mk("mkdict", comp(N, g, ttuple([e, val]), v), ty=Ty("dict", val.ty)))
        if args and b in ("list", "dict", "set", "str"):
            return self.models.method(self, args[0], name, args[1:], kwargs, st, node)
        if b == "int" and name == "from_bytes":
            pass
        return self.unmodel("builtin-method-" + b + "." + name, *[self.resolve(a, st) for a in args])

    def call(self, f, args, kwargs, st, node):
        self.tick(node)
        if f.op == "phi":
            c = f.a[0]
            return self.branch(c, st, lambda s: self.call(f.a[1], list(args), dict(kwargs), s, node),
                               lambda s: self.call(f.a[2], list(args), dict(kwargs), s, node))
        if f.op == "bound":
            return self.call(f.a[0], [f.a[1]] + list(args), kwargs, st, node)
        if f.op == "partial":
            kw = {k.a[0]: v for k, v in f.a[2]}
            kw.update(kwargs)
            return self.call(f.a[0], list(f.a[1]) + list(args), kw, st, node)
        if f.op == "func":
            return self.call_func(self.funcs[f.a[0]], f, args, kwargs, st, node)
        if f.op == "class":
            return self.construct(self.classes[f.a[0]], args, kwargs, st, node)
        if f.op == "bmeth":
            return self.models.method(self, f.a[0], f.a[1], args, kwargs, st, node)
        if f.op in ("ext", "builtin"):
            return self.models.ext_call(self, f, args, kwargs, st, node)
        if f.op == "module":
            return self.models.ext_call(self, mk("ext", f.a[0]), args, kwargs, st, node)
        if f.op == "call" and f.a[0].op == "ext" and (f.a[0].a[0].startswith("numba.") or f.a[0].a[0] in ("functools.wraps",)):
            # njit(...)(func)
            if args and args[0].op in ("func", "bound", "phi", "partial"):
                return args[0]
        if f.op == "loc":
            k = self.obj_class(f, st)
            if k is not None:
                return self.call(self.get_attr(f, "__call__", st), args, kwargs, st, node)
        if is_const(f, None):
            self.effect("call_none", {}, st)
            raise Dead()
        # symbolic callable
        ra = [self.resolve(a, st) for a in args]
        kw = tuple(sorted(((const(k), self.resolve(v, st)) for k, v in kwargs.items()), key=lambda p: p[0].a[0]))
        self.effect("call", {"name": "<sym>", "func": f, "args": ra, "kwargs": {k.a[0]: v for k, v in kw}, "refs": list(args)}, st)
        h = self.sym_results.get(f.key)
        if h is not None:
            return h(ra, st)
        t = self.models.sym_call_type(f)
        return mk("call", f, *ra, kw, ty=t)

    def construct(self, k, args, kwargs, st, node):
        if k.is_nt:
            vals = []
            for i, (fn, d) in enumerate(k.fields):
                if i < len(args):
                    vals.append(args[i])
                elif fn in kwargs:
                    vals.append(kwargs[fn])
                elif d is not None:
                    vals.append(d)
                else:
                    vals.append(self.unmodel("nt-missing-field"))
            return mk("nt", k.qual, tuple(vals), ty=Ty("tuple", klass=k.qual))
        for b in k.bases:
            if isinstance(b, str) and (b.endswith("Error") or b.endswith("Exception")):
                return mk("excobj", k.qual.rsplit(".", 1)[-1])
        self.loc_n += 1
        o = mk("loc", self.loc_n, tm.ty_name(Obj(k.qual)), ty=Obj(k.qual))
        self.locs[o.id] = o
        st.heap[o.id] = mk("obj", k.qual, self.loc_n, ty=Obj(k.qual))
        st.heap[("new", o.id)] = self.loc_n
        init, owner = self.find_method(k, "__init__")
        if init is not None:
            self.call(mk("bound", init, o), args, kwargs, st, node)
        elif k.is_dc:
            for i, (fn, d) in enumerate(k.fields):
                v = args[i] if i < len(args) else kwargs.get(fn, d)
                st.heap[("f", o.id, fn)] = v if v is not None else self.unmodel("dc-field")
        return o

    def bind(self, fn, args, kwargs, st):
        a = fn.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        vararg = []
        star = None
        for i, v in enumerate(args):
            if v.op == "starred":
                star = v
                if a.vararg is not None and i >= len(pos):
                    continue
                self.unmodel("starred-call")
                for j in range(i, len(pos)):
                    if pos[j] not in kwargs:
                        env[pos[j]] = index(v.a[0], const(j - i))
                break
            if i < len(pos):
                env[pos[i]] = v
            else:
                vararg.append(v)
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k == "**":
                if a.kwarg is not None:
                    extra[k] = v
                else:
                    d = self.deref(v, st)
                    for p in pos + kwonly:
                        if p not in env and p not in kwargs:
                            j = None
                            env[p] = mk("kwopt", d, p, ty=self.attr_types.get(("kw", p)))
                continue
            if k in env and k in pos:
                self.effect("bad_call", {"func": fn.qual, "why": "multiple values for " + k}, st)
            if k in pos or k in kwonly:
                env[k] = v
            else:
                extra[k] = v
        nd = len(fn.defaults)
        for i, p in enumerate(pos):
            if p not in env:
                j = i - (len(pos) - nd)
                if j >= 0:
                    env[p] = fn.defaults[j]
                else:
                    self.effect("bad_call", {"func": fn.qual, "why": "missing argument " + p}, st)
                    env[p] = self.unmodel("missing-arg", const(p))
        for p in kwonly:
            if p not in env:
                env[p] = fn.kwdefaults.get(p) or self.unmodel("missing-kwonly", const(p))
        if a.vararg is not None:
            env[a.vararg.arg] = ttuple(vararg) if star is None or vararg else (star.a[0] if star is not None and len(args) > len(pos) else ttuple(vararg))
        elif vararg:
            self.effect("bad_call", {"func": fn.qual, "why": "too many arguments"}, st)
        if a.kwarg is not None:
            d = mk("dict", (), ty=DICT)
            if "**" in extra:
                d = self.deref(extra.pop("**"), st)
            for k, v in extra.items():
                d = setitem(d, const(k), v)
            env[a.kwarg.arg] = self.alloc(st, d)
        elif extra:
            self.effect("bad_call", {"func": fn.qual, "why": "unexpected keyword " + ",".join(extra)}, st)
        return env

    def is_search_loop(self, fn):
        """a function whose loop drives a data-structure search loop (`while`) in a callee: not summarised
        by recurrences, kept as an uninterpreted application of its arguments"""
        r = self._search.get(id(fn.node))
        if r is None:
            r = self._search[id(fn.node)] = self._search_kind(fn, set()) == 2
        return r

    def _search_kind(self, fn, seen):
        """0: no data-dependent loop; 1: a `while` loop (directly or through straight-line calls); 2: a loop around kind 1"""
        if id(fn.node) in seen or isinstance(fn.node, ast.Lambda):
            return 0
        seen = seen | {id(fn.node)}

        def callee(n):
            if not isinstance(n.func, ast.Name):
                return None
            v = fn.mod.env.get(n.func.id)
            if v is not None and v.op == "func":
                return self.funcs[v.a[0]]
            return None
        res = 0

        def walk(n, inloop):
            nonlocal res
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                il = inloop
                if isinstance(c, ast.While) and counting_while(c):
                    il = True
                elif isinstance(c, ast.While):
                    res = max(res, 2 if inloop else 1)
                    il = True
                elif isinstance(c, (ast.For, ast.ListComp, ast.GeneratorExp)):
                    il = True
                elif isinstance(c, ast.Call):
                    g = callee(c)
                    if g is not None and g.mod.name.startswith(self.pkg):
                        k = self._search_kind(g, seen)
                        if k == 1:
                            res = max(res, 2 if inloop else 1)
                walk(c, il)
        walk(fn.node, False)
        # a while loop whose body only calls kind-1 helpers is itself kind 1 (a sift)
        if res == 2 and not any(isinstance(x, ast.For) for x in ast.walk(fn.node)) and \
                not any(isinstance(x, ast.Return) and x.value is not None for x in ast.walk(fn.node)):
            res = 1
        return res

    def call_func(self, fn, fterm, args, kwargs, st, node):
        ic = self.intercept.get(fn.qual)
        if ic is not None:
            r = ic(self, st, fn, args, kwargs, node)
            if r is not NotImplemented:
                return r
        if fn.qual in self.opaque_calls or self.opaque_loops and self.is_search_loop(fn):
            env = self.bind(fn, args, kwargs, st)
            a_ = [self.resolve(v, st) for v in env.values()]
            self.effect("app", {"func": fn.qual, "env": {k: self.resolve(v, st) for k, v in env.items()}}, st)
            return mk("app", const(fn.qual), *a_)
        depth = sum(1 for q, _ in self.stack if q == fn.qual)
        if depth >= 3 or len(self.stack) > 40:
            ra = [self.resolve(a, st) for a in args]
            return self.unmodel("recursion " + fn.qual, *ra)
        if isinstance(fn.node, ast.Lambda):
            env = self.bind(fn, args, kwargs, st)
            fr = Frame(fn, fn.mod)
            s2 = State(env, st.heap, st.pc, st.lits)
            sm = self.cur_mod
            self.cur_mod = fn.mod
            try:
                v = self.eval(fn.node.body, s2, fr)
            finally:
                self.cur_mod = sm
            st.heap, st.pc, st.lits = s2.heap, s2.pc, s2.lits
            return v
        if fn.has_yield is None:
            fn.has_yield = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(fn.node))
        env = self.bind(fn, args, kwargs, st)
        if "contextmanager" in fn.decos:
            return mk("genctx", fterm, tuple((const(k), v) for k, v in env.items()))
        fr = Frame(fn, fn.mod)
        fr.caller_env = None
        fr.base_pc = len(st.pc)
        if fn.has_yield:
            fr.yields = self.alloc(st, tlist([]))
        s2 = State(env, st.heap, st.pc, st.lits)
        self.stack.append((fn.qual, self.cur_line))
        self.analysed_funcs.add(fn.qual)
        sm, sl = self.cur_mod, self.cur_line
        self.cur_mod = fn.mod
        ntry = len(self.trys)
        self.effect("enter", {"func": fn.qual, "args": args, "env": dict(env)}, st)
        try:
            out = self.exec_block(fn.node.body, s2, fr)
        finally:
            self.stack.pop()
            self.cur_mod, self.cur_line = sm, sl
        if out is not None:
            fr.returns.append([out.pc, NONEV, out])
        rets = fr.returns
        if not rets:
            raise Dead()
        n = len(st.pc)
        conds = [conj_pc(r[0][n:]) for r in rets]
        val, heap = rets[-1][1], rets[-1][2].heap
        for (pc, v, s), c in reversed(list(zip(rets[:-1], conds[:-1]))):
            val = ite(c, v, val)
            heap = self.merge_dict(c, s.heap, heap, None)
        total = FALSE
        for c in conds:
            total = lor(total, c)
        st.heap = heap
        if fn.has_yield:
            val = fr.yields
        if total is not TRUE and total is not FALSE:
            st.assume(total)
            if val.op == "phi":
                val = restrict_top(val, st.lits)
        return val

    # ------------------------------------------------------------------ sequence helpers
    def to_seq(self, d, st):
        """content of list(d)"""
        if d.op == "phi":
            return ite(d.a[0], self.to_seq(d.a[1], st), self.to_seq(d.a[2], st))
        if d.op == "loc":
            return self.to_seq(self.deref(d, st), st)
        if d.op in ("list", "comp", "concat_l", "flat"):
            return d
        if d.op == "tuple":
            return tlist(d.a[0])
        if d.op == "nt":
            return tlist(d.a[1])
        if d.op == "range":
            n = numval(d.a[1])
            v = fresh()
            return comp(length(d), TRUE, index(d, v), v) if not is_zero(d.a[0]) or True else d
        if d.op in ("enum", "zipn", "items"):
            N, g, e, v, lit = self.iter_term(d, fresh(), st)
            if lit is not None:
                return tlist(lit)
            return comp(N, g, e, v)
        if kind(d) == "dict":
            if d.op == "dict":
                return tlist([k for k, _ in d.a[0]])
            return keys_(d)
        if kind(d) == "set":
            return setseq(d)
        return d

    def list_extend(self, ref, v, st):
        d = self.deref(v, st)
        self.mutate(ref, "extend", st, value=v)
        self.set_content(ref, concat(self.deref(ref, st), self.to_seq(d, st)), st)


# ------------------------------------------------------------------------------------ helpers
BUILTINS = set("""len range enumerate zip map filter sum max min abs round sorted reversed list dict set tuple str int float
bool isinstance issubclass hasattr getattr setattr delattr callable print open any all next iter type repr hash id
frozenset bytes bytearray super object property staticmethod classmethod divmod pow format ord chr vars dir globals
locals exec eval compile __import__ input slice memoryview complex hex NotImplemented Ellipsis""".split())


def _has_loc(t):
    r = _hl.get(t.id)
    if r is None:
        if t.op in ("loc", "fresh"):
            r = True
        else:
            r = False
            st = list(t.a)
            while st:
                x = st.pop()
                if isinstance(x, tuple):
                    st.extend(x)
                elif isinstance(x, T) and _has_loc(x):
                    r = True
                    break
        _hl[t.id] = r
    return r


_hl = {}


def subst_locs(parts, go):
    return tuple(go(p) if isinstance(p, (T, tuple)) else p for p in parts)


def conj_pc(pc):
    return conj(pc)


def has_mu(t, L):
    return bool(mus_of(t, L))


_mus = {}


def mus_all(t):
    r = _mus.get(t.id)
    if r is None:
        if t.op == "mu":
            r = frozenset([(t.a[0], t.id)])
        else:
            acc = set()
            st = list(t.a)
            while st:
                x = st.pop()
                if isinstance(x, tuple):
                    st.extend(x)
                elif isinstance(x, T):
                    acc |= mus_all(x)
            r = frozenset(acc) if acc else EMPTY
        _mus[t.id] = r
    return r


def mus_of(t, L):
    return {i for l, i in mus_all(t) if l == L}


def sol_inloop(eng, mus, nexts, sol, N, guard, var, L):
    return getattr(eng, "_last_table", {})


def last_value(N, guard, v, var, init=None):
    if var.a[0] not in v.fv and var.a[0] not in guard.fv:
        c = land(guard, lnot(eq(N, ZERO))) if N.ty is not None else mk("ran", N, ty=BOOL)
        if init is None:
            return v
        return ite(c, v, init)
    return mkbind("lastc", N, (guard, v), var, extra=() if init is None else (init,), ty=v.ty)


def map_leaves(t, f):
    if t.op == "phi":
        a = map_leaves(t.a[1], f)
        if a is None:
            return None
        b = map_leaves(t.a[2], f)
        if b is None:
            return None
        return ite(t.a[0], a, b)
    return f(t)


def collapse(t, f):
    """value of the decision diagram where leaves mapped to None are don't-care"""
    if t.op == "phi":
        a, b = collapse(t.a[1], f), collapse(t.a[2], f)
        if a is None:
            return b
        if b is None:
            return a
        return ite(t.a[0], a, b)
    return f(t)


def restrict_top(v, lits):
    while v.op == "phi":
        x = lits.get(v.a[0].key)
        if x is None:
            a, b = restrict_top(v.a[1], lits), restrict_top(v.a[2], lits)
            if a is v.a[1] and b is v.a[2]:
                return v
            return ite(v.a[0], a, b)
        v = v.a[1] if x else v.a[2]
    return v


def args_env(cm):
    return {k.a[0]: v for k, v in cm.a[1]}


def assigned_in_state(s):
    return set(s.env)


def target_names(t):
    if t is None:
        return set()
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)} if not isinstance(t, (ast.Attribute, ast.Subscript)) else set()


def assigned_names(body):
    out = set()

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_Import(self, n):
            for a in n.names:
                out.add(a.asname or a.name.split(".")[0])

        def visit_ImportFrom(self, n):
            for a in n.names:
                out.add(a.asname or a.name)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)
    v = V()
    for s in body or []:
        v.visit(s)
    return out


def walk_own(fn):
    st = list(fn.body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))


def _may_raise(body):
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, (ast.Call, ast.Subscript, ast.BinOp)):
                return True
    return False


# container constructors --------------------------------------------------------------
def distinct_key(k, var):
    if k.op == "phi":
        return var.a[0] not in k.a[0].fv and distinct_key(k.a[1], var) and distinct_key(k.a[2], var)
    return k is var or tm.distinct_index(k, var) is not None


def mkset(seq):
    return mk("mkset", seq, ty=Ty("set", seq.ty.elem if seq.ty is not None else None))


def seqof(s):
    if s.op == "phi":
        return ite(s.a[0], seqof(s.a[1]), seqof(s.a[2]))
    if s.op == "mkset":
        return s.a[0]
    if kind(s) in ("list", "array") or s.op in ("comp", "list", "flat"):
        return s
    if s.op == "tuple":
        return tlist(s.a[0])
    if kind(s) == "dict":
        return keys_(s)
    return mk("seqof", s)


def setseq(s):
    """the distinct elements of a set, in iteration order"""
    if s.op == "phi":
        return ite(s.a[0], setseq(s.a[1]), setseq(s.a[2]))
    if s.op == "mkset":
        q = s.a[0]
        if q.op in ("setseq", "keys", "range"):
            return q
        if q.op == "phi":
            return ite(q.a[0], setseq(mkset(q.a[1])), setseq(mkset(q.a[2])))
        if tm.KNOWN and q.op == "list":
            out = []
            for x in q.a[0]:
                cs = [eq(x, y) for y in out]
                if any(c is not TRUE and c is not FALSE for c in cs):
                    break
                if TRUE not in cs:
                    out.append(x)
            else:
                # any order is possible: scenarios are run with both
                return tlist(out[::-1] if tm.SETORDER[0] else out)
        return mk("setseq", q, ty=Ty("list", q.ty.elem if q.ty is not None else None))
    return mk("setseq", s, ty=Ty("list", s.ty.elem if s.ty is not None else None))


def sinter(a, b):
    def norm(x):
        if kind(x) == "set":
            return x
        return mkset(seqof(x))
    a, b = norm(a), norm(b)
    e = a.ty.elem if a.ty and a.ty.elem else (b.ty.elem if b.ty else None)
    return mk("sinter", *sorted((a, b), key=lambda t: t.key), ty=Ty("set", e))


def mkdict_(prs, ty):
    """the dictionary of a sequence of pairs"""
    if prs.op == "list" and all(p.op == "tuple" and len(p.a[0]) == 2 for p in prs.a[0]):
        d = mk("dict", (), ty=ty)
        for p in prs.a[0]:
            d = setitem(d, *p.a[0])
        if d.op == "dict":
            return d
    return mk("mkdict", prs, ty=ty)


def setitem(c, k, v):
    if c.op == "phi":
        return ite(c.a[0], setitem(c.a[1], k, v), setitem(c.a[2], k, v))
    if c.op == "dict" and k.op == "const":
        if all(kk.op == "const" for kk, _ in c.a[0]):
            prs = [(kk, vv) for kk, vv in c.a[0]]
            for i, (kk, vv) in enumerate(prs):
                if kk.key == k.key:
                    prs[i] = (k, v)
                    break
            else:
                prs.append((k, v))
            return mk("dict", tuple(prs), ty=DICT)
    if c.op == "dict":
        prs = list(c.a[0])
        cs = [eq(kk, k) for kk, _ in prs]
        if all(x is TRUE or x is FALSE for x in cs):
            if TRUE in cs:
                prs[cs.index(TRUE)] = (prs[cs.index(TRUE)][0], v)
            else:
                prs.append((k, v))
            return mk("dict", tuple(prs), ty=c.ty if c.ty is not None else DICT)
    if c.op == "list" and numval(k) is not None:
        n = int(numval(k))
        if -len(c.a[0]) <= n < len(c.a[0]):
            xs = list(c.a[0])
            xs[n] = v
            return tlist(xs)
    if c.op == "setitem" and c.a[1].key == k.key:
        return setitem(c.a[0], k, v)
    return mk("setitem", c, k, v, ty=c.ty)


def sslice(c, lo, hi, v):
    if c.op == "phi":
        return ite(c.a[0], sslice(c.a[1], lo, hi, v), sslice(c.a[2], lo, hi, v))
    w = v
    while w.op in ("arr", "cast"):
        w = w.a[0]
    if c.op == "zeros" and is_const(lo, 1) and is_const(hi, None) and w.op == "slice" and w.a[0].op == "offs" and is_const(w.a[1], 1) \
            and is_const(w.a[2], None) and is_const(w.a[3], None) and length(c).key == length(w.a[0]).key:
        return w.a[0]       # 0 followed by the running sums
    return mk("sslice", c, lo, hi, v, ty=c.ty)


def dmerge(a, b):
    if b.op == "dict":
        for k, v in b.a[0]:
            a = setitem(a, k, v)
        return a
    if a.op == "dict" and not a.a[0]:
        return b
    return mk("dmerge", a, b, ty=DICT)


def sadd(base, idx, val):
    if idx.op == "phi" or val.op == "phi":
        r = tm._lift2(lambda i, v: sadd(base, i, v), idx, val)
        if r is not None:
            return r
    if idx.op == "list" and not idx.a[0] or idx.op == "slice" and is_zero(length(idx)):
        return base
    if idx.op == "flat" and val.op == "flat" and idx.a[0].op == val.a[0].op == "list":
        xs, ys = idx.a[0].a[0], val.a[0].a[0]
        if len(xs) == len(ys) and all(length(x).key == length(y).key for x, y in zip(xs, ys)):
            for x, y in zip(xs, ys):
                base = sadd(base, x, y)
            return base
    # additions commute
    parts = [(idx, val)]
    while base.op == "sadd":
        parts.append((base.a[1], base.a[2]))
        base = base.a[0]
    for i, v in sorted(parts, key=lambda p: (p[0].key, p[1].key)):
        base = mk("sadd", base, i, v, ty=base.ty)
    return base


def counter(seq):
    return mk("counter", seq, ty=Ty("dict", NAT))


def contains_(x, c):
    if c.op == "phi" or x.op == "phi":
        r = tm._lift2(lambda a, b: contains_(a, b), x, c)
        if r is not None:
            return r
    if c.op in ("list", "tuple"):
        r = FALSE
        for y in c.a[0]:
            e = eq(x, y)
            # identity / bool-int confusion: True == 1
            r = lor(r, e)
        return r
    if c.op == "mkset":
        s = c.a[0]
        if s.op in ("list", "tuple"):
            return contains_(x, s)
        return contains_(x, s)
    if c.op == "dict":
        r = FALSE
        for k, _ in c.a[0]:
            r = lor(r, eq(x, k))
        return r
    if x.op == "index" and x.a[0].op in ("setseq", "keys") and x.a[0].a[0].key == c.key:
        return TRUE
    if x.op == "index" and x.a[0].key == c.key and kind(x.a[1]) == "int":
        return TRUE
    if c.op in ("keys", "setseq", "seqof"):
        return contains_(x, c.a[0])
    if c.op in ("mkdict", "sadd") and kind(c) == "dict":
        ks = keys_(c)
        if not (ks.op == "keys" and ks.a[0] is c):
            return contains_(x, ks)
    if c.op == "counter":
        return contains_(x, c.a[0])
    if c.op == "arr":
        return contains_(x, c.a[0])
    if c.op == "setitem" and kind(c) == "dict":
        return lor(eq(x, c.a[1]), contains_(x, c.a[0]))
    if c.op == "growing":
        return mk("in", x, c.a[1], ty=BOOL)
    if c.op == "range":
        if kind(x) in ("str", "list", "tuple", "dict"):
            return FALSE
        return land(lnot(cmp("<", x, c.a[0])), cmp("<", x, c.a[1]))
    if c.op == "sinter":
        return land(contains_(x, c.a[0]), contains_(x, c.a[1]))
    if c.op == "sdiff":
        return land(contains_(x, c.a[0]), lnot(contains_(x, c.a[1])))
    if c.op == "concat_l":
        r = FALSE
        for y in c.a[0]:
            r = lor(r, contains_(x, y))
        return r
    if c.op == "const" and isinstance(c.a[0], str) and x.op == "const" and isinstance(x.a[0], str):
        return const(x.a[0] in c.a[0])
    if c.op == "comp":
        N, (g, b), v = open_binder(c)
        # identity map of a base sequence
        return anyc(N, land(g, eq(x, b)), v) if kind(b) in ("int", "str") and False else mk("in", x, c, ty=BOOL)
    return mk("in", x, c, ty=BOOL)


def strof(x):
    if x.op == "phi":
        return ite(x.a[0], strof(x.a[1]), strof(x.a[2]))
    if kind(x) == "str":
        return x
    if x.op == "const":
        v = x.a[0]
        if isinstance(v, (int, bool)) or v is None:
            return const(str(v))
    if x.op == "path":
        return strof(x.a[0])
    return mk("strof", x)


def path(x):
    if x.op == "phi":
        return ite(x.a[0], path(x.a[1]), path(x.a[2]))
    if kind(x) == "path":
        return x
    if x.op == "strof":
        return path(x.a[0])
    return mk("path", x)


def pjoin(a, *bs):
    r = path(a)
    for b in bs:
        if r.op == "phi" or b.op == "phi":
            r = tm._lift2(lambda x, y: pjoin(x, y), r, b)
            if r is None:
                r = unk("pjoin")
            continue
        if b.op == "path":
            b = b.a[0]
        if b.op == "const" and isinstance(b.a[0], str) and "/" in b.a[0].strip("/"):
            for p in b.a[0].split("/"):
                r = mk("pjoin", r, const(p))
            continue
        if r.op == "attr" and r.a[1] == "parent" and b.op == "cat":
            f = b.a[0][0]
            if f.op == "attr" and f.a[1] == "stem" and f.a[0].key == r.a[0].key:
                r = path(cat([mk("splitext0", strof(r.a[0]), ty=STR)] + list(b.a[0][1:])))
                continue
        r = mk("pjoin", r, b)
    return r


def elem_of(t, i):
    """element i of an element-wise array expression: index distributes over arithmetic"""
    if t.op == "phi":
        return ite(t.a[0], elem_of(t.a[1], i), elem_of(t.a[2], i))
    if t.op == "poly":
        r = ZERO
        for c, m in t.a[0]:
            x = const(c)
            for f, e in m:
                x = mul(x, power(elem_of(f, i), e))
            r = add(r, x)
        return r
    if t.op == "log" and kind(t) == "array":
        return log(elem_of(t.a[0], i))
    if t.op in ("max", "min"):
        return minmax(t.op, [elem_of(x, i) for x in t.a[0]])
    if kind(t) == "array" or t.op in ("comp", "gather"):
        if t.op == "gather":
            return elem_of(t.a[0], elem_of(t.a[1], i))
        if t.op == "cast":
            return elem_of(t.a[0], i)
        if t.op == "arr":
            return elem_of(t.a[0], i)
        return index(t, i)
    if kind(t) == "list":
        return index(t, i)
    return t


tm.REBUILD.update({
    "setitem": setitem, "sslice": sslice, "sadd": sadd, "mkset": mkset, "setseq": lambda q: setseq(mkset(q)) if kind(q) != "set" else setseq(q),
    "strof": strof, "path": path, "pjoin": lambda a, b: pjoin(a, b), "in": contains_, "seqof": seqof,
    "sinter": sinter,
})

tm.SETSEQ[0] = setseq
tm.CONTAINS[0] = contains_
tm.CONCAT[0] = tm.concat
tm.ELEM_OF[0] = elem_of
tm.MEMBER[0] = lambda x, s: contains_(x, s)

from . import models as _models  # noqa
Engine.models = _models
