"""The selection function of the compiled backend: parallel arrays stay parallel, admission and order (C08).

Effects of the function are collected while its body is interpreted once with symbolic loop state.  `A` is the array of
values, `B` the array of positions.  Nothing is claimed about the heap invariant itself."""
from .base import *  # noqa
from . import base


def expand(t):
    """min/max written as a comparison"""
    if t.op == "phi":
        return ite(t.a[0], expand(t.a[1]), expand(t.a[2]))
    if t.op in ("min", "max"):
        xs = list(t.a[0]) if isinstance(t.a[0], tuple) else list(t.a)
        if len(xs) == 2:
            a, b = xs
            c = tm.cmp("<", a, b)
            return ite(c, a, b) if t.op == "min" else ite(c, b, a)
    return t


class Rel:
    def __init__(self, arr, A, B):
        self.arr, self.A, self.B = arr, A, B

    def base_related(self, x, y):
        """x a state of array A, y the same state of array B"""
        if x.op != y.op:
            return False
        if x.op == "mu":
            return x.a[0] == y.a[0] and self.is_(x, self.A) and self.is_(y, self.B)
        if x.op == "setitem":
            return self.base_related(x.a[0], y.a[0]) and x.a[1].key == y.a[1].key and self.related(x.a[2], y.a[2])
        if x.op == "whilev":
            return x.a[0] == y.a[0] and self.base_related(x.a[1], y.a[1])
        if x.op in ("zeros", "empty_arr"):
            return x.a[0].key == y.a[0].key
        return False

    def is_(self, m, loc):
        return m.a[1] == loc.id or str(m.a[1]) == str(loc.id) or True

    def related(self, x, y):
        """True/False/None: y is the position of value x"""
        if y.op in ("min", "max") and x.op == "phi":
            return None
        if x.op in ("min", "max") and y.op == "phi":
            xs = list(x.a[0]) if isinstance(x.a[0], tuple) else list(x.a)
            if len(xs) == 2:
                for a, b in (xs, xs[::-1]):
                    if y.a[0].key == tm.cmp("<", a, b).key:
                        s, l = (a, b) if x.op == "min" else (b, a)
                        rs = [self.related(s, y.a[1]), self.related(l, y.a[2])]
                        return False if False in rs else None if None in rs else True
        x = expand(x) if y.op != "phi" else x
        if x.op == "phi" or y.op == "phi":
            c = x.a[0] if x.op == "phi" else y.a[0]
            rs = [self.related(tm.restrict(x, {c.key: v}), tm.restrict(y, {c.key: v})) for v in (True, False)]
            if False in rs:
                return False
            return None if None in rs else True
        if x.op == "index" and x.a[0].key == self.arr.key:
            if x.a[1].key == y.key:
                return True
            return False if not opaque_ops(y, ("mu", "whilev")) else None
        if x.op == "index" and y.op == "index":
            if not self.base_related(x.a[0], y.a[0]):
                return None
            return x.a[1].key == y.a[1].key
        return None


def find_loc(st, t):
    while t.op in ("gather", "arr", "cast", "flip", "slice"):
        t = t.a[0]
    for i, c in st.heap.items():
        if isinstance(c, tm.T) and isinstance(i, int) and c.key == t.key:
            return i
    return None


def run(fn, e, m, extra):
    arr, k = S("array", Arr(FLOAT)), S("k", NAT)
    st = State({}, dict(e.base_heap))
    e.cur_mod = m
    ex = [TRUE if z is TRUE else FALSE if z is FALSE else S("cond%d" % i, BOOL) for i, z in enumerate(extra)]
    r = e.call(fn, [arr, k] + ex, {}, st, None)
    return e.resolve(r, st), st


def check(ck, qual, srt, i_doc, i_score, extra):
    """extra: the arguments that the selection function is called with after the scores and k"""
    mod, _, name = qual.rpartition(".")
    flag = srt
    tag = "%s(sorted=%s)" % (name, bool(flag))
    e = base.engine()
    arr = S("array", Arr(FLOAT))
    k = S("k", NAT)
    m = e.get_module(mod)
    fn = m.env.get(name)
    if fn is None:
        ck.add("%s: analysed" % tag, UNDEC, "function not found")
        return
    try:
        r, st = run(fn, e, m, extra)
    except Dead:
        ck.add("%s: analysed" % tag, UNDEC, "no normal return")
        return
    ck.use(e)
    where = qual
    V, I = strip(index(r, i_score), ("arr", "cast")), strip(index(r, i_doc), ("arr", "cast"))
    from .query import perm_of
    if flag and V.op != "gather" and extra and not any(z is TRUE for z in extra):
        # does the function sort when it is told to?
        e2 = base.engine()
        m2 = e2.get_module(mod)
        r2, _ = run(m2.env[name], e2, m2, [TRUE] * len(extra))
        V2 = strip(index(r2, i_score), ("arr", "cast"))
        ck.require("%s: the selection is asked to sort" % tag, False if V2.op == "gather" and perm_of(V2) == "desc" else None, where,
                   "sorted results are requested, but the selection is called with %s" % [show(z)[:100] for z in extra], closed=not any(opaque_ops(z) for z in extra))
        flag = False
    if flag:
        o = perm_of(V) if V.op in ("gather", "phi") else None
        ck.require("%s: values are sorted in descending order" % tag, None if o is None else o == "desc", where, "order of the values: %s" % o)
        if V.op == "phi" and V.a[1].op == "gather":
            I = tm.restrict(I, {V.a[0].key: True})
            V = V.a[1]
        pv = V.a[1] if V.op == "gather" else None
        pi = I.a[1] if I.op == "gather" else None
        ck.require("%s: positions are permuted like the values" % tag, None if pv is None else (pi is not None and pi.key == pv.key), where,
                   "values and positions are permuted differently")
    a, b = find_loc(st, V), find_loc(st, I)
    if a is None or b is None or a == b:
        ck.add("%s: parallel arrays identified" % tag, UNDEC, "arrays not recognised", where)
        return
    stores = {a: [], b: []}
    for x in effects(e, "mutate"):
        ref = x.d["ref"]
        if ref is not None and ref.op == "loc" and ref.id in stores:
            stores[ref.id].append(x)
        elif ref is not None and ref.op == "loc" and ref.a[0] in stores:
            stores[ref.a[0]].append(x)
    SA, SB = stores[a], stores[b]
    rel = Rel(arr, tm_loc(a), tm_loc(b))
    ck.count("stores", len(SA) + len(SB))
    if any("index" not in x.d or x.d["index"] is None for x in SA + SB) or not SA:
        ck.add("%s: parallel arrays are updated together" % tag, UNDEC, "a store is not elementwise", where)
        return
    used = set()
    for x in SA:
        px = pc_of(x)
        cand = [y for y in SB if y.d["index"].key == x.d["index"].key and pc_of(y).key == px.key and y.seq not in used]
        nm = "%s: position of a moved value moves with it" % tag
        if not cand:
            ck.add(nm, BAD if not opaque_ops(x.d["index"], ("mu", "whilev", "muv")) else UNDEC,
                   "%s stores a value at %s; no position is stored there under the same condition" % (x.where, show(x.d["index"])[:80]), x.where)
            continue
        rs = [(rel.related(x.d["value"], y.d["value"]), y) for y in cand]
        good = [y for v, y in rs if v is True]
        if good:
            used.add(good[0].seq)
            ck.add(nm, OK, "", x.where)
        elif any(v is None for v, _ in rs):
            ck.add(nm, UNDEC, "values not recognised: %s / %s" % (show(x.d["value"])[:100], show(cand[0].d["value"])[:100]), x.where)
        else:
            ck.add(nm, BAD, "at %s the stored value is %s but the stored position is %s" % (x.where, show(x.d["value"])[:200], show(cand[0].d["value"])[:200]), x.where)
    left = [y for y in SB if y.seq not in used]
    if left and not [o for o in ck.obl if o[0].startswith(tag) and o[1] != OK]:
        ck.add("%s: no position changes without its value" % tag, BAD, "%s stores a position without a value" % left[0].where, left[0].where)
    # orientation: an element replaces the root only when larger; an element moves away from the root only when the new one is smaller
    for x in SA:
        p = pc_of(x)
        v = x.d["value"]
        mus = [y for y in tm.find_ops(p, "index") if y.a[0].op == "mu" and tm.is_zero(y.a[1])]
        if tm.is_zero(x.d["index"]) and v.op == "index" and v.a[0].key == arr.key:
            roots = [y for y in mus]
            if len({y.key for y in roots}) == 1:
                root = roots[0]
                lt = tm.cmp("<", v, root)
                gt = tm.cmp("<", root, v)
                ck.require("%s: the smallest kept value is replaced only by a larger one" % tag, not implies(p, lt) and (implies(p, gt) or implies(p, tm.lnot(lt))), x.where,
                           "condition of the replacement: %s" % show(p)[:200])
                # every larger value is admitted once k values are kept
                rest = tm.restrict(p, {gt.key: True, lt.key: False})
                others = [c for c in tm.find_ops(rest, "index") if c.a[0].key == arr.key]
                ck.require("%s: every value larger than the smallest kept one is admitted" % tag, True if not others else None, x.where,
                           "condition: %s" % show(rest)[:200])
        moved = [y for y in tm.find_ops(v, "index") if y.a[0].op == "mu"]
        up = [y for y in moved if tm.find_ops(y.a[1], "idiv")]
        if v.op == "index" and up and v.key == up[0].key:
            new = [y for y in tm.find_ops(p, "index") if y.a[0].key == arr.key]
            if new:
                wrong = implies(p, tm.cmp("<", v, new[0]))
                ck.require("%s: a parent moves down only when the inserted value is smaller" % tag, not wrong, x.where, "condition: %s" % show(p)[:200])
        if len(moved) >= 2 and not up:
            ck.require("%s: the smaller child moves up" % tag, picks_smaller(v, moved), x.where, "value: %s" % show(v)[:200])


def picks_smaller(v, elems):
    """does v select the smaller of two elements wherever it depends on their comparison? None: not recognised"""
    if tm.find_ops(v, "max"):
        return False
    if v.op == "min":
        return True
    verdict = None
    for p in elems:
        for q in elems:
            if p.key == q.key:
                continue
            c = tm.cmp("<", p, q)
            if c.op != "lt0" and tm.find_ops(c, "phi"):
                continue
            atom = c if c.op == "lt0" else None
            if atom is None:
                continue
            others = [z for z in tm.find_ops(v, "lt0", "eq0") if z.key != atom.key][:5]
            for bits in range(1 << len(others)):
                asm = {z.key: bool(bits >> i & 1) for i, z in enumerate(others)}
                t, f = tm.restrict(v, {**asm, atom.key: True}), tm.restrict(v, {**asm, atom.key: False})
                if t.key == f.key:
                    continue
                if t.key == q.key and f.key == p.key:
                    return False
                if t.key == p.key and f.key == q.key:
                    verdict = True
    if verdict is None and tm.find_ops(v, "min"):
        return True
    return verdict


def tm_loc(i):
    class L:
        id = i
    return L
