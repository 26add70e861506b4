"""Obligations, verdicts and configuration shared by all rules."""
import os
from .. import terms as tm
from ..terms import *  # noqa
from ..terms import mk, show, const, kind, index, length, add, mul, sub, div, neg, log, ite, Ty, ListOf, Obj
from .. import engine as E
from ..engine import Engine, State, Dead, Budget, AnalysisError, elem_of, contains_, setseq, mkset

ROOT = os.environ.get("VG_REPO", "/repo")
BM = "bm25s.BM25"
TOK = "bm25s.tokenization.Tokenizer"
TUP = "bm25s.tokenization.Tokenized"
JSONL = "bm25s.utils.corpus.JsonlCorpus"
NONEV, TRUE, FALSE, ZERO, ONE = tm.NONEV, tm.TRUE, tm.FALSE, tm.ZERO, tm.ONE
INT, NAT, FLOAT, STR, BOOL, FUNC = tm.INT, tm.NAT, tm.FLOAT, tm.STR, tm.BOOL, tm.FUNC

OK, BAD, UNDEC = "ok", "VIOLATED", "undecided"

# operators whose value the analysis does not know: a term containing one is never evidence
OPAQUE = {"unk", "whilev", "mu", "muv", "foldc", "mkfold", "meth", "growing", "unordered", "wildcard", "loopv", "strm",
          "opaque", "unbound", "old", "ndindex", "call", "lastc", "future", "reshape", "callres", "typeof", "hash", "idof", "next"}


def Arr(el=None):
    return Ty("array", el)


def DictOf(v=None):
    return Ty("dict", v)


# the parts of the stored index
tm.ITEM_TYPES.update({("scores", "data"): Ty("array", FLOAT), ("scores", "indices"): Ty("array", INT), ("scores", "indptr"): Ty("array", INT),
                      ("scores", "num_docs"): NAT})


def tokd(ids, vocab):
    """a Tokenized object"""
    return mk("nt", TUP, (ids, vocab), ty=Ty("tuple", klass=TUP))


def S(name, ty=None):
    return mk("sym", name, repr(ty), ty=ty)


def attr(o, name, ty=None):
    return mk("attr", o, name, ty=ty)


# tests of the characters of a text: true of some texts and false of others, whatever else is known about them
FREE_STR = {"isalpha", "isdigit", "isalnum", "isspace", "isnumeric", "isdecimal", "isupper", "islower", "istitle", "isascii", "isidentifier"}


# methods that leave some texts as they are and change others
CHANGE_STR = {"strip", "lstrip", "rstrip", "lower", "upper", "casefold", "title", "capitalize", "swapcase", "expandtabs", "removeprefix", "removesuffix"}


def free_text(t):
    """a text of which nothing is known: given by the caller or element of what the caller gave"""
    while t.op in ("index", "attr", "bv", "keys", "list", "strof"):
        if t.op == "bv":
            return True
        t = t.a[0]
    return t.op == "sym"


def known_strm(x):
    return x.op == "strm" and (x.a[0] in FREE_STR or x.a[0] in CHANGE_STR and isinstance(x.a[1], tm.T) and free_text(x.a[1]))


def opaque_ops(t, allow=()):
    return sorted({x.op for x in tm.find_ops(t, *[o for o in OPAQUE if o not in allow]) if not known_strm(x)})


AVAIL = {"numba": True, "tqdm": True, "orjson": False, "Stemmer": True, "jax": False, "huggingface_hub": True,
         "beir": True, "psutil": True, "ujson": False}


def engine(mods=("bm25s",), avail=None, overlay=None, **kw):
    e = Engine(ROOT, avail={**AVAIL, **(avail or {})}, overlay=overlay, **kw)
    for m in mods:
        e.get_module(m)
    return e


class Anchor(AnalysisError):
    pass


def lookup(e, mod, qual, st=None):
    m = e.get_module(mod)
    parts = qual.split(".")
    if parts[0] not in m.env:
        raise Anchor("public name %s.%s not found" % (mod, parts[0]))
    v = m.env[parts[0]]
    st = st or State({}, dict(e.base_heap))
    for p in parts[1:]:
        if v.op == "class":
            f, _ = e.find_method(e.classes[v.a[0]], p)
            if f is None:
                raise Anchor("public name %s.%s not found" % (mod, qual))
        v = e.get_attr(v, p, st)
    return m, v


def call(e, mod, qual, args=(), kw=None, st=None):
    """abstract call of a public function: (resolved result or None when no normal return, state)"""
    st = st or State({}, dict(e.base_heap))
    m, v = lookup(e, mod, qual, st)
    e.cur_mod = m
    try:
        r = e.call(v, list(args), dict(kw or {}), st, None)
    except Dead:
        return None, st
    return e.resolve(r, st), st


def field(e, st, obj, name):
    """value of obj.name in the final state"""
    return e.resolve(e.get_attr(obj, name, st), st)


def bm_types(e, attrs=(), **vals):
    for n, t in [("k1", FLOAT), ("b", FLOAT), ("delta", FLOAT), ("dtype", STR), ("int_dtype", STR), ("method", STR),
                 ("idf_method", STR), ("backend", STR)]:
        e.attr_types[(BM, n)] = t
    for n, t in attrs:
        e.attr_types[(BM, n)] = t
    e.attr_vals[(BM, "methods_requiring_nonoccurrence")] = tm.ttuple([const("bm25l"), const("bm25+")])
    for k, v in vals.items():
        e.attr_vals[(BM, k)] = v if isinstance(v, tm.T) else const(v)
    return S("self", Obj(BM))


def strip(t, ops=("arr", "cast", "filled")):
    while t.op in ops:
        t = t.a[1] if t.op == "filled" else t.a[0]
    return t


def first_atom(*ts):
    """an atomic condition free of bound variables on which one of the values branches"""
    for t in ts:
        for x in tm.subterms(t):
            if x.op == "phi" and not any(n.startswith("h") for n in x.a[0].fv) and not tm.find_ops(x.a[0], "phi"):
                return x.a[0]
    return None


def same_cases(a, b, depth=10, known=None):
    """equal under every truth value of the conditions that the two values branch on?"""
    known = known or {}
    for _ in range(4):
        if a.key == b.key:
            return True
        x, y = tm.restrict(a, known), tm.restrict(b, known)
        if x.key == a.key and y.key == b.key:
            break
        a, b = x, y
    if depth == 0:
        return False
    c = first_atom(a, b)
    if c is None or c.key in known:
        return False
    return all(same_cases(a, b, depth - 1, {**known, c.key: v}) for v in (True, False))


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obl = []
        self.funcs = set()
        self.calls = 0
        self.engines = 0
        self.unmodelled = {}
        self.notes = []
        self.counts = {}
        self.known = []

    def use(self, e):
        self.funcs |= set(e.analysed_funcs)
        self.calls += e.call_sites
        self.engines += 1
        for k, v in e.unmodelled.items():
            self.unmodelled[k] = self.unmodelled.get(k, 0) + v
        return e

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def add(self, name, verdict, detail="", where=""):
        self.obl.append((name, verdict, detail, where))
        return verdict

    def same(self, name, got, want, where="", why="", allow=(), undec=None):
        if got is None or want is None:
            return self.add(name, UNDEC, "no value", where)
        if got.key == want.key or same_cases(got, want):
            return self.add(name, OK, "", where)
        ops = opaque_ops(got, allow) + opaque_ops(want, allow)
        if ops or (undec and undec(got)):
            if os.environ.get("VG_SHOW"):
                print("GOT", show(got)[:600], "\nWANT", show(want)[:600])
            return self.add(name, UNDEC, "value not fully modelled: %s" % ",".join(ops), where)
        return self.add(name, BAD, "%s\n      computed: %s\n      required: %s" % (why, show(got)[:1500], show(want)[:1500]), where)

    def require(self, name, cond, where="", why="", closed=True):
        """cond True -> ok; False -> violated when the evidence is closed, else undecided"""
        if cond is True:
            return self.add(name, OK, "", where)
        if cond is None or not closed:
            return self.add(name, UNDEC, why, where)
        return self.add(name, BAD, why, where)

    def guard(self, name, fn):
        """run one group of obligations; analysis limits make the group undecided"""
        try:
            return fn()
        except Budget as ex:
            self.add(name, UNDEC, "analysis budget: %s" % ex)
        except AnalysisError:
            raise
        except RecursionError:
            self.add(name, UNDEC, "analysis depth")
        except MemoryError:
            self.add(name, UNDEC, "analysis memory")
        except Exception as ex:
            if os.environ.get("VG_DEBUG"):
                raise
            self.add(name, UNDEC, "unexpected shape: %s: %s" % (type(ex).__name__, ex))


def effects(e, *kinds, stack=None):
    out = []
    for x in e.effects:
        if x.kind in kinds and (stack is None or any(stack == q for q, _ in x.stack)):
            out.append(x)
    return out


def pc_of(x):
    r = TRUE
    for c in x.pc:
        r = tm.land(r, c)
    return r


def implies(c, d):
    """does condition c imply d (as decision diagrams)?"""
    return tm.land(c, tm.lnot(d)) is FALSE
