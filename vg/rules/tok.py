"""C20 C25 C26 C27 C28 C37: the tokenizer."""
import itertools
from .base import *  # noqa
from . import base

T = S("t", Obj(TOK))
STEMMER, SPLITTER = S("stemmer", FUNC), S("splitter", FUNC)
STOPS = S("stopwords", ListOf(STR))
DW = Ty("dict", NAT)
M0, S0, W0 = attr(T, "word_to_id", DW), attr(T, "stem_to_sid", DW), attr(T, "word_to_stem", Ty("dict", STR))
EMPTY = const("")
MODES = {"True": TRUE, "False": FALSE, "never": const("never"), "if_empty": const("if_empty")}


def stem_of(w):
    return mk("call", STEMMER, w, (), ty=STR)


class Scene:
    """one engine per configuration of the tokenizer; each run starts from the same heap"""

    def __init__(self, stemmer, lower=True, stopwords=True):
        e = self.e = base.engine()
        self.stemmer, self.lower, self.stop = stemmer, lower, stopwords
        e.attr_vals[(TOK, "stemmer")] = STEMMER if stemmer else NONEV
        e.attr_vals[(TOK, "splitter")] = SPLITTER
        e.attr_vals[(TOK, "stopwords")] = STOPS if stopwords else NONEV
        e.attr_vals[(TOK, "lower")] = TRUE if lower else FALSE
        for n, ty in (("word_to_id", DW), ("stem_to_sid", DW), ("word_to_stem", Ty("dict", STR))):
            e.attr_types[(TOK, n)] = ty
        self.texts = {}
        self.asked = []
        self.own = ()       # words that are their own stems
        e.sym_results = {SPLITTER.key: self.split, STEMMER.key: lambda args, st: args[0] if args[0].key in self.own else stem_of(args[0])}

    def split(self, args, st):
        if args and args[0].op == "phi":
            a, b = self.split([args[0].a[1]], st), self.split([args[0].a[2]], st)
            return ite(args[0].a[0], a, b)
        for k, (t, ws) in self.texts.items():
            if args and (args[0].key == t.key or args[0].op == "lower" and args[0].a[0].key == t.key):
                self.asked.append((args[0], t))
                return self.e.alloc(st, tm.tlist(list(ws)))
        self.asked.append((args[0] if args else NONEV, None))
        return mk("unk", "splitter of another text")

    def run(self, docs, mode, ae, lits, meth="tokenize", **kw):
        """(result, final maps) of one call, the atoms in lits being known"""
        e = self.e
        e.steps = 0
        del e.effects[:]
        ts = [S("text%d" % i, STR) for i in range(len(docs))]
        self.texts = {t.key: (t, d) for t, d in zip(ts, docs)}
        self.asked = []
        st = State({}, dict(e.base_heap))
        kw.setdefault("update_vocab", mode)
        kw.setdefault("allow_empty", TRUE if ae else FALSE)
        if meth == "tokenize":
            kw.setdefault("show_progress", FALSE)
        r, st = call(e, "bm25s.tokenization", "Tokenizer." + meth, [T, tm.tlist(ts)], kw, st)
        return r, {n: field(e, st, T, n) for n in ("word_to_id", "stem_to_sid", "word_to_stem")}, e.effects


def lits_cond(lits):
    c = TRUE
    for a, v in lits:
        c = tm.land(c, a if v else tm.lnot(a))
    return c


def atoms_of(facts):
    """[(atom, value)] of the facts [(condition, truth value)]"""
    out = []
    for c, v in facts:
        if c is TRUE or c is FALSE:
            continue
        for k, (a, b) in E.implied_literals(c if v else tm.lnot(c)).items():
            out.append((a, b))
    return out


def chain(t, base_):
    """additions [(key, value)] made to a map, oldest first; None when the value has another shape"""
    out = []
    while t.op == "setitem":
        out.append((t.a[1], t.a[2]))
        t = t.a[0]
    if t.key != base_.key:
        return None
    return out[::-1]


class World:
    """what is known about the words of a scenario: the maps, the stopwords, the stems"""

    def __init__(self, stemmer, words, flags, empty, eqstems=False, consts=False, own=()):
        self.stemmer, self.words, self.flags, self.empty = stemmer, words, flags, empty
        self.own = own
        self.known_ids = None
        f = []
        ws = mkset(STOPS)
        names = words + [EMPTY]
        if not consts:
            for i, a in enumerate(names):
                for b in names[:i]:
                    f.append((tm.eq(a, b), False))
        for w in names:
            fl = flags[w.key]
            if w is not EMPTY:
                f += [(tm.truth(w), True), (tm.eq(length(w), ZERO), False), (tm.cmp("<", length(w), ONE), False), (tm.cmp("<", ZERO, length(w)), True)]
            f.append((contains_(w, M0), fl["M"]))
            f.append((contains_(w, ws), fl["stop"]))
            f.append((contains_(w, STOPS), fl["stop"]))
            if stemmer:
                s = self.stem(w)
                f.append((contains_(w, W0), fl["W"]))
                f.append((contains_(s, S0), fl["S"]))
                if w.key in own:
                    if fl["W"]:
                        f += [(tm.eq(s, w), True), (contains_(s, ws), fl["stop"]), (contains_(s, STOPS), fl["stop"]), (contains_(s, M0), fl["M"]), (contains_(w, S0), fl["S"])]
                    continue
                f.append((contains_(s, ws), fl.get("sstop", False)))
                f.append((contains_(s, STOPS), fl.get("sstop", False)))
                f.append((contains_(s, M0), fl.get("sM", False)))
                f.append((tm.eq(s, EMPTY), False))
                if w is EMPTY:
                    f.append((contains_(EMPTY, S0), fl["M"] or fl.get("eS", False)))
        if stemmer:
            ss = [self.stem(w) for w in names]
            for i, a in enumerate(ss):
                for b in ss[:i]:
                    f.append((tm.eq(a, b), eqstems and a is not ss[-1]))
                for b in names:
                    if b.key not in own or names[i].key != b.key:
                        f.append((tm.eq(a, b), False))
            f.append((tm.eq(length(S0), ZERO), empty))
        f.append((tm.eq(length(M0), ZERO), empty))
        if not stemmer:
            f += [(tm.eq(length(S0), ZERO), True), (tm.eq(length(W0), ZERO), True)]
        else:
            f.append((tm.eq(length(W0), ZERO), empty and not any(x["W"] for x in flags.values())))
        self.lits = atoms_of(f)

    def stem(self, w):
        return index(W0, w) if self.flags[w.key]["W"] else w if w.key in self.own else stem_of(w)

    def issuing(self, out):
        return (out["stem_to_sid"], S0) if self.stemmer else (out["word_to_id"], M0)

    def norm(self, t):
        """IDs are 0 … n-1 (each new one is the number of entries), so the largest is the number of entries - 1;
        the ID of a known word is that of its known stem"""
        m = {}
        for x in tm.find_ops(t, "maxof"):
            for b in (M0, S0):
                if b is M0 and self.stemmer:
                    continue
                q, n = x.a[0], 0
                if q.op == "concat_l":
                    ok = q.a[0][0].key == tm.values_(b).key and all(p.op == "list" for p in q.a[0][1:])
                    vs = [v for p in q.a[0][1:] if p.op == "list" for v in p.a[0]]
                    if not ok or any(self.norm(v).key != add(length(b), const(i)).key for i, v in enumerate(vs)):
                        continue
                    n = len(vs)
                elif q.key != tm.values_(b).key:
                    continue
                m[x] = add(length(b), const(n - 1))
        if m:
            t = tm.replace(t, m)
        if self.stemmer:
            if self.known_ids is None:
                self.known_ids = {index(S0, self.stem(w)): index(M0, w) for w in self.words if self.flags[w.key]["M"]}
            if t in self.known_ids:
                return self.known_ids[t]
            if any(x.a[0].key == S0.key for x in tm.find_ops(t, "index")):
                t = tm.replace(t, self.known_ids)
        return t


def lookup_(ch, base_, k):
    for a, v in reversed(ch):
        if tm.eq(a, k) is TRUE:
            return v
    return index(base_, k)


def has(ch, base_, k):
    return any(tm.eq(a, k) is TRUE for a, _ in ch) or contains_(k, base_) is TRUE


class Verdicts:
    """the clauses judged in one scenario: clause -> (verdict, message)"""

    def __init__(self):
        self.v = {}

    def put(self, clause, ok, msg=""):
        old = self.v.get(clause)
        rank = {True: 0, None: 1, False: 2}
        if old is None or rank[ok] > rank[old[0]]:
            self.v[clause] = (ok, msg)


def judge(wd, docs, mode, ae, r, out, asked, lower):
    """the clauses of C25 C26 C27 C37 on the (phi free) outcome of one call"""
    V = Verdicts()
    N = wd.norm
    eff = {"if_empty": "True" if wd.empty else "False"}.get(mode, mode)
    chM, chS, chW = chain(out["word_to_id"], M0), chain(out["stem_to_sid"], S0), chain(out["word_to_stem"], W0)
    clauses = ("vocab", "added", "ids", "stable", "known", "tokens", "stems", "empty", "emptyin")
    if chM is None or chS is None or r is None or r.op != "list" or any(d.op != "list" for d in r.a[0]):
        for nm in ("word_to_id", "stem_to_sid", "word_to_stem"):
            d = out[nm]
            if d.op == "dict" and any(f[{"word_to_id": "M", "stem_to_sid": "S", "word_to_stem": "W"}[nm]] for f in wd.flags.values()) and not tm.find_ops(d, "sym"):
                V.put("stable", False, "the entries of %s are discarded: it is %s at the end" % (nm, show(d)[:150]))
                return V
        for c in clauses:
            V.put(c, None, "shape of the result not modelled: %s" % (show(r)[:200] if r is not None else None))
        return V
    chM = [(k, N(v)) for k, v in chM]
    chS = [(k, N(v)) for k, v in chS]
    look = lambda ch, b, k: N(lookup_(ch, b, k))
    # --- C25
    addM = [(k, v) for k, v in chM if not (contains_(k, M0) is TRUE and v.key == N(index(M0, k)).key)]
    addS = [(k, v) for k, v in chS if not (contains_(k, S0) is TRUE and v.key == N(index(S0, k)).key)]
    ok, msg = True, ""
    if eff == "never" and (addM or addS):
        ok, msg = False, "update_vocab='never' changes the vocabulary: %s" % [show(k) for k, _ in addM + addS]
    if eff == "False":
        bad = addS if wd.stemmer else addM
        if bad:
            ok, msg = False, "without permission to update, a new ID is issued for %s" % [show(k) for k, _ in bad]
        elif wd.stemmer:
            for k, v in addM:
                if wd.flags.get(k.key) is None or not wd.flags[k.key]["S"]:
                    ok, msg = False, "without permission to update, %s is added although its stem is unknown" % show(k)
    V.put("vocab", ok, msg)
    if eff == "True":
        for d in docs:
            for w in d:
                if not wd.flags[w.key]["stop"]:
                    V.put("added", has(chM, M0, w), "%s is not in the vocabulary after it was tokenized with permission to update" % show(w))
                    if wd.stemmer and not wd.flags[w.key]["M"]:
                        V.put("added", has(chS, S0, wd.stem(w)), "the stem of %s is not in the vocabulary" % show(w))
        V.put("added", True)
    MODE = mode == "if_empty"
    # --- C26: a new key gets the next free ID; nothing known is reassigned
    ch, b = (addS, S0) if wd.stemmer else (addM, M0)
    seen = []
    for i, (k, v) in enumerate(ch):
        c = contains_(k, b)
        dup = [tm.eq(k, q) for q in seen]
        if c is TRUE or TRUE in dup:
            V.put("stable", False, "the ID of %s is reassigned: %s" % (show(k), show(v)[:120]))
        elif c is not FALSE or any(x is not FALSE for x in dup):
            V.put("stable", None, "whether %s is known is undecided" % show(k))
        want = add(length(b), const(i))
        V.put("ids", True if v.key == want.key else None if opaque_ops(v) else False,
              "the %d. new entry (%s) gets ID %s instead of the next free one, %s" % (i + 1, show(k), show(v)[:160], show(want)))
        seen.append(k)
    if wd.stemmer:
        for k, v in addM:
            c = contains_(k, M0)
            if c is TRUE:
                V.put("stable", False, "the ID of %s is reassigned: %s" % (show(k), show(v)[:120]))
            ws = [look(chS, S0, s) for s in ([wd.stem(k)] if k.key in wd.flags or k.key in wd.own else [stem_of(k)]) + ([EMPTY] if k is EMPTY else [])]
            V.put("stable", True if v.key in {x.key for x in ws} else None if opaque_ops(v) else False,
                  "the ID recorded for %s is %s, that of its stem is %s" % (show(k), show(v)[:120], show(ws[0])[:120]))
    V.put("stable", True)
    V.put("ids", True)
    # --- C27, C37
    okids = {N(v).key for _, v in chM + chS} | {N(index(M0, w)).key for w in wd.words + [EMPTY] if wd.flags[w.key]["M"]}
    if wd.stemmer:
        okids |= {N(index(S0, wd.stem(w))).key for w in wd.words + [EMPTY] if wd.flags[w.key]["S"]}
    if len(r.a[0]) != len(docs):
        for c in ("tokens", "empty"):
            V.put(c, False, "%d lists of IDs for %d texts" % (len(r.a[0]), len(docs)))
    for d, got in zip(docs, r.a[0]):
        g = [N(x) for x in got.a[0]]
        for x in g:
            V.put("known", True if x.key in okids else None if opaque_ops(x) else False, "the ID %s emitted is not in the vocabulary" % show(x)[:160])
        alts = [[]]
        for w in d:
            fl = wd.flags[w.key]
            if fl["M"]:
                o = [[N(index(M0, w))]] + ([[]] if fl["stop"] else [])
            elif fl["stop"]:
                o = [[]]
            elif wd.stemmer:
                s = wd.stem(w)
                o = [[look(chS, S0, s)]] if has(chS, S0, s) else [[]]
                if eff == "never" and o != [[]]:
                    o = o + [[]]
            else:
                o = [[look(chM, M0, w)]] if has(chM, M0, w) else [[]]
            alts = [a + x for a in alts for x in o]
        keys = lambda xs: [x.key for x in xs]
        empties = [look(chM, M0, EMPTY)] if ae and has(chM, M0, EMPTY) else []
        full = [a for a in alts if a]
        may_be_empty = len(full) < len(alts)
        if keys(g) in [keys(a) for a in full]:
            continue
        if may_be_empty:
            V.put("empty", keys(g) == keys(empties) or (None if any(opaque_ops(x) for x in g) else False),
                  "a text without tokens (%s) is represented by %s instead of %s" % (
                      [show(w) for w in d], [show(x)[:100] for x in g], [show(x)[:100] for x in empties]))
        else:
            V.put("tokens", None if any(opaque_ops(x) for x in g) else False,
                  "the IDs of the words %s are %s instead of %s" % ([show(w) for w in d], [show(x)[:100] for x in g], [show(x)[:100] for x in full[0]]))
    V.put("tokens", True)
    V.put("empty", True)
    V.put("known", True)
    if MODE:
        V.put("mode", *V.v["tokens"])
    if ae and eff == "True":
        V.put("emptyin", has(chM, M0, EMPTY), "the empty token is not in the vocabulary after an update with allow_empty=True")
    V.put("emptyin", True)
    if wd.stemmer and chW is not None:
        for k, v in chW:
            ws = [k.key if k.key in wd.own else stem_of(k).key] + ([EMPTY.key] if k is EMPTY else []) + ([index(W0, k).key] if contains_(k, W0) is TRUE else [])
            V.put("stems", True if v.key in ws else None if opaque_ops(v, ("call",)) else False, "the stem recorded for %s is %s" % (show(k), show(v)[:120]))
    V.put("stems", True)
    for a, t in asked:
        want = mk("lower", t) if lower and t is not None else t
        if t is None and altered(a, lower) and len([1 for b, _ in asked if tm.find_ops(b, "sym") == tm.find_ops(a, "sym")]) == 1:
            V.put("text", False, "the splitter gets %s" % show(a)[:120])
            continue
        V.put("text", None if t is None else a.key == want.key, "the splitter gets %s" % show(a)[:120])
    V.put("text", True)
    return V


def settle(sc, wd, docs, mode, ae, extra=(), meth="tokenize"):
    """Verdicts; a condition the scenario leaves open is tried both ways: violated only when violated under both"""
    lits = wd.lits + list(extra)
    sc.own = wd.own
    with tm.knowing(lits):
        r, out, effs = sc.run(docs, MODES[mode], ae, lits, meth)
        c = first_atom(*[x for x in [r] + list(out.values()) if x is not None])
        if c is None:
            if r is None and any(x.kind == "raise" and not x.d.get("caught") and pc_of(x) is TRUE for x in effs):
                V = Verdicts()
                V.put("tokens", False, "tokenizing raises an error")
                return V
            return judge(wd, docs, mode, ae, r, out, sc.asked, sc.lower)
    V = Verdicts()
    if len(extra) >= 3:
        for q in ("vocab", "mode", "added", "ids", "stable", "known", "tokens", "stems", "empty", "emptyin", "text"):
            V.put(q, None, "depends on %s" % show(c)[:200])
        return V
    a = settle(sc, wd, docs, mode, ae, tuple(extra) + tuple(atoms_of([(c, True)])), meth)
    b = settle(sc, wd, docs, mode, ae, tuple(extra) + tuple(atoms_of([(c, False)])), meth)
    free = free_atom(c) or free_here(c, sc, wd)
    for q in set(a.v) | set(b.v):
        x, y = a.v.get(q, (True, "")), b.v.get(q, (True, ""))
        if free:
            V.put(q, *x)
            V.put(q, *y)
        else:
            V.put(q, x[0] if x[0] == y[0] else None, x[1] or y[1])
    return V


SPELL = ("startswith", "endswith", *FREE_STR)


def free_here(c, sc, wd):
    """a condition on the number of known words that the scenario leaves open; one on the lower case of a word that need not be in lower case"""
    if c.op in ("eq0", "lt0", "lt") and c.fv == frozenset() and not wd.empty:
        known = sum(1 for f in wd.flags.values() if f["M"])
        L = length(M0)
        if all(x.key == L.key for x in tm.find_ops(c, "len")) and not [x for x in tm.find_ops(c, "sym") if x.key != T.key]:
            vs = {tm.replace(c, {L: const(n)}).key for n in range(max(known, 1), max(known, 1) + 40)}
            return vs == {TRUE.key, FALSE.key}
    if c.op == "in" and not sc.lower and c.a[0].op == "lower" and c.a[0].a[0].op == "sym":
        return True
    if c.op in ("eq", "eq0") and not sc.lower and tm.find_ops(c, "lower") and all(x.a[0].op == "sym" for x in tm.find_ops(c, "lower")):
        return True
    return False


def free_atom(c):
    """a condition on the spelling or length of a word or text only: independent of what a scenario fixes"""
    syms = [x for x in tm.find_ops(c, "sym")]
    if c.op == "slt":     # the order of two words or stems that are not known to be equal
        return all(x.op in ("sym", "call", "app", "idx", "index") for x in c.a[:2])
    if not syms or any(not (x.a[0][0] in "wt" and x.a[0].strip("wtex0123456789") == "") for x in syms):
        return False
    if c.op in ("call", "meth") or c.op == "truth" and c.a[0].op in ("call", "meth"):
        y = c if c.op != "truth" else c.a[0]
        return y.op == "meth" and y.a[1] in SPELL
    if c.op == "strm":
        return c.a[0] in SPELL and c.a[1].op == "sym"
    if c.op in ("eq0", "lt0", "lt"):
        return all(x.a[0].op == "sym" for x in tm.find_ops(c, "len")) and bool(tm.find_ops(c, "len")) and not any(
            tm.eq(length(x.a[0]), ZERO).key == c.key for x in tm.find_ops(c, "len"))
    if c.op == "in":
        return c.a[0].op == "const" and bool(c.a[0].a[0]) and c.a[1].op == "sym"
    return False


def worlds(stemmer, n, deep):
    """the states of knowledge about n distinct words (and the empty token) before a call"""
    words = [S("w%d" % (i + 1), STR) for i in range(n)]
    if stemmer:
        per = [dict(M=True, stop=False, W=True, S=True), dict(M=False, stop=False, W=False, S=False), dict(M=False, stop=False, W=False, S=True),
               dict(M=False, stop=False, W=True, S=False), dict(M=False, stop=False, W=True, S=True), dict(M=False, stop=True, W=False, S=False),
               dict(M=False, stop=True, W=False, S=True), dict(M=True, stop=True, W=True, S=True)]
        if n == 1:
            per += [dict(M=False, stop=False, W=False, S=False, sstop=True), dict(M=False, stop=False, W=False, S=True, sstop=True),
                    dict(M=False, stop=False, W=False, S=False, sM=True), dict(M=False, stop=False, W=False, S=True, sM=True)]
        eps = [dict(M=True, stop=False, W=True, S=True), dict(M=False, stop=False, W=False, S=False)]
        if n == 0 or deep:
            eps += [dict(M=False, stop=False, W=False, S=False, eS=True), dict(M=False, stop=True, W=False, S=False), dict(M=False, stop=False, W=True, S=False),
                    dict(M=False, stop=False, W=False, S=True)]
    else:
        per = [dict(M=m, stop=s, W=False, S=False) for m in (True, False) for s in (True, False)]
        eps = [dict(M=True, stop=False, W=False, S=False), dict(M=False, stop=False, W=False, S=False)]
        if n == 0 or deep:
            eps += [dict(M=False, stop=True, W=False, S=False)]
    for no, fl in enumerate(itertools.product(per, repeat=n)):
        for ep in (eps if n < 2 or deep else eps[no % 2:][:1]):
            flags = {w.key: f for w, f in zip(words, fl)}
            flags[EMPTY.key] = ep
            known = any(f["M"] or f["S"] or f.get("eS") or f.get("sM") for f in flags.values())
            eqs = [False]
            if stemmer and n == 2 and all(not fl[i]["W"] and not fl[i]["M"] for i in range(2)) and fl[0]["S"] == fl[1]["S"]:
                eqs.append(True)
            for q in eqs:
                yield World(stemmer, words, flags, False, q), words
                if not known:
                    yield World(stemmer, words, flags, True, q), words
            if stemmer and n == 1 and not fl[0].get("sstop") and not fl[0].get("sM"):
                # a word that is its own stem
                yield World(stemmer, words, flags, False, False, own=(words[0].key,)), words
                if not known:
                    yield World(stemmer, words, flags, True, False, own=(words[0].key,)), words


CLAUSES = {"vocab": "C25", "mode": "C25", "added": "C25", "ids": "C26", "stable": "C26", "known": "C26", "tokens": "C27", "stems": "C27", "text": "C27", "empty": "C37", "emptyin": "C37"}
NAMES = {"vocab": "the vocabulary changes only as permitted", "mode": "'if_empty' represents the words that True or False would", "added": "words are added when permitted", "ids": "a new entry gets the next free ID",
         "stable": "issued IDs are not reassigned, words have the ID of their stem", "known": "every ID emitted is in the vocabulary",
         "tokens": "the words of a text are represented in order, without stopwords", "stems": "the stem recorded is the stemmer's",
         "text": "the splitter gets the text in the required case", "empty": "a text without tokens is represented as documented",
         "emptyin": "the empty token is in the vocabulary"}


def scenarios(ck, pid, where="Tokenizer.streaming_tokenize"):
    deep = ck.tier == "thorough"

    def group(sc, stemmer, lower, shape, n, mode, ae):
        res = Verdicts()
        cnt = 0
        for wd, ws in worlds(stemmer, n, deep):
            docs = {"no word": [[]], "a word": [ws], "a word twice": [ws * 2], "two words": [ws], "two texts": [[w] for w in ws]}[shape]
            V = settle(sc, wd, docs, mode, ae)
            cnt += 1
            for q, (ok, msg) in V.v.items():
                res.put(q, ok, msg)
        ck.count("scenarios", cnt)
        for q in CLAUSES:
            if CLAUSES[q] == pid and cnt and q in res.v:
                ok, msg = res.v[q]
                ck.require("%s: %s, lower=%s, update_vocab=%s, allow_empty=%s, %s" % (
                    NAMES[q], "stemmer" if stemmer else "no stemmer", lower, mode, ae, shape), ok, where, msg)

    for stemmer in (False, True):
        for lower in (True, False):
            if not lower and pid != "C27":
                continue
            sc = ck.guard("set-up of the tokenizer", lambda: Scene(stemmer, lower))
            if sc is None:
                continue
            for shape in ("no word", "a word", "a word twice", "two words", "two texts"):
                if not lower and shape != "a word":
                    continue
                n = {"no word": 0, "a word": 1, "a word twice": 1}.get(shape, 2)
                for mode in MODES:
                    if shape == "two texts" and not deep and mode in ("if_empty", "never"):
                        continue
                    for ae in (True, False):
                        ck.guard("%s %s, lower=%s, update_vocab=%s, allow_empty=%s, %s" % (
                            pid, "stemmer" if stemmer else "no stemmer", lower, mode, ae, shape),
                            lambda: group(sc, stemmer, lower, shape, n, mode, ae))
            ck.use(sc.e)


def long_scenarios(ck, pid, where="Tokenizer.streaming_tokenize"):
    """texts with more words than any number that the module compares with; many texts"""
    n_words = long_size()
    for stemmer in (False, True):
        sc = Scene(stemmer)
        sc.e.max_unroll = 10 * n_words
        for mode, known in (("False", True), ("True", False), ("True", True)):
            n = n_words if known else min(n_words, 60)
            words = [const("w%05d" % i) for i in range(n)]
            fl = dict(M=known, stop=False, W=known, S=known)
            flags = {w.key: fl for w in words}
            flags[EMPTY.key] = dict(M=True, stop=False, W=True, S=True)
            wd = World(stemmer, words, flags, False, consts=True)
            shapes = (("a text of %d words" % n, [words]), ("%d texts" % n, [[w] for w in words]))
            for shape, docs in shapes[:1] if known and mode == "True" else shapes:
                sc.e.max_steps = max(sc.e.max_steps, 5000 * n)
                V = settle(sc, wd, docs, mode, True)
                for q in CLAUSES:
                    if CLAUSES[q] == pid and q in V.v:
                        ok, msg = V.v[q]
                        ck.require("%s: %s, update_vocab=%s%s, %s" % (
                            NAMES[q], "stemmer" if stemmer else "no stemmer", mode, ", known words" if known else "", shape.replace(str(n), "many")), ok, where, msg[:600])
                ck.count("long_scenarios")
        ck.use(sc.e)


def long_size():
    import ast
    import os
    n = 200
    with open(os.path.join(base.ROOT, "bm25s", "tokenization.py"), encoding="utf-8") as f:
        for x in ast.walk(ast.parse(f.read())):
            if isinstance(x, ast.Constant) and type(x.value) is int and n <= x.value + 2 <= 3000:
                n = x.value + 2
    return n


# ---------------------------------------------------------------------------------------------- the function tokenize
PAT = S("pattern", STR)


def fn_run(e, docs, lits, stemmer, ids, lower, ae, single=False, **kw):
    """(result, splitter arguments) of bm25s.tokenize on texts whose matches are the given words"""
    e.steps = 0
    del e.effects[:]
    ts = [S("text%d" % i, STR) for i in range(len(docs))]
    asked = []

    def findall(args, st):
        for t, d in zip(ts, docs):
            if args[1].key == t.key or args[1].op == "lower" and args[1].a[0].key == t.key:
                asked.append((args[0], args[1], t))
                return e.alloc(st, tm.tlist(list(d)))
        asked.append((args[0], args[1], None))
        return None

    def stems(args, st):
        q = e.deref(args[0], st) if args else NONEV
        if q.op == "list":
            return e.alloc(st, tm.tlist([stem_of(x) for x in q.a[0]]))
        return mk("call", STEMMER, *args, (), ty=ListOf(STR))
    e.sym_results = {"findall": findall, STEMMER.key: stems}
    st = State({}, dict(e.base_heap))
    r, st = call(e, "bm25s", "tokenize", [ts[0] if single else tm.tlist(ts)],
                 dict(dict(stopwords=STOPS, stemmer=STEMMER if stemmer else NONEV, return_ids=TRUE if ids else FALSE, show_progress=FALSE,
                           token_pattern=PAT, lower=TRUE if lower else FALSE, allow_empty=TRUE if ae else FALSE), **kw), st)
    return r, asked


def fn_world(words, stop, eqs):
    f = []
    names = words + [EMPTY]
    for i, a in enumerate(names):
        for b in names[:i]:
            f.append((tm.eq(a, b), False))
    for w in names:
        s = stem_of(w)
        if w is not EMPTY:
            f += [(tm.truth(w), True), (tm.eq(length(w), ZERO), False), (tm.cmp("<", length(w), ONE), False)]
        for c in (mkset(STOPS), STOPS):
            f.append((contains_(w, c), w.key in stop))
            f.append((contains_(s, c), False))
        f.append((tm.eq(s, EMPTY), False))
        for b in names:
            f.append((tm.eq(s, b), False))
    ss = [stem_of(w) for w in words]
    for i, a in enumerate(ss):
        for b in ss[:i]:
            f.append((tm.eq(a, b), eqs))
        f.append((tm.eq(a, stem_of(EMPTY)), False))
    return atoms_of(f)


def fn_settle(e, docs, lits, want, depth, **kw):
    """(verdict, message): do the strings denoted by the result equal `want`?"""
    with tm.knowing(lits):
        r, asked = fn_run(e, docs, lits, **kw)
        c = first_atom(r) if r is not None else None
        if c is None:
            if r is None:
                bad = any(x.kind == "raise" and not x.d.get("caught") and pc_of(x) is TRUE for x in e.effects)
                return (False if bad else None), "tokenize does not return"
            return fn_judge(r, want, kw["ids"], asked, kw["lower"])
    if depth == 0:
        return None, "depends on %s" % show(c)[:200]
    a = fn_settle(e, docs, lits + atoms_of([(c, True)]), want, depth - 1, **kw)
    b = fn_settle(e, docs, lits + atoms_of([(c, False)]), want, depth - 1, **kw)
    if free_atom(c):
        return worst(a, b)
    return (a[0] if a[0] == b[0] else None), a[1] or b[1]


KNOWN_STR = {"casefold", "upper", "capitalize", "title", "swapcase", "strip", "lstrip", "rstrip", "replace", "encode", "removeprefix", "removesuffix", "lower"}


def altered(a, lower):
    """is `a` a text after known string operations that are not the ones asked for (or a part of it)?"""
    ops = set()
    while a.op in ("strm", "slice", "lower"):
        if a.op == "strm":
            if a.a[0] not in KNOWN_STR or any(isinstance(x, tm.T) and x.op != "const" for x in a.a[2:]):
                return False
            ops.add(a.a[0])
            a = a.a[1]
        else:
            if a.op == "slice" and any(x.op != "const" for x in a.a[1:] if isinstance(x, tm.T)):
                return False
            ops.add(a.op)
            a = a.a[0]
    return a.op == "sym" and bool(ops - {"lower"})


def fn_judge(r, want, ids, asked, lower):
    for rx, a, t in asked:
        if t is None:
            if altered(a, lower) and len([1 for _, b, _ in asked if tm.find_ops(b, "sym") == tm.find_ops(a, "sym")]) == 1:
                return False, "the text split is %s" % show(a)[:100]
            return None, "a part of a text is split: %s" % show(a)[:100]
        if lower != (a.op == "lower"):
            return False, "the text split is %s" % show(a)[:100]
        if rx.op != "recompile" or rx.a[0].key != PAT.key or len(rx.a) > 1 and any(x.op != "const" or x.a[0] for x in rx.a[1:]):
            return False, "the pattern used is %s" % show(rx)[:100]
    if ids:
        if r.op != "nt" or r.a[1][0].op != "list" or r.a[1][1].op != "dict" or any(x.op != "list" for x in r.a[1][0].a[0]):
            return None, "shape of the result not modelled: %s" % show(r)[:200]
        rows, voc = r.a[1][0].a[0], r.a[1][1].a[0]
        vs = [tm.numval(v) for _, v in voc]
        if any(v is None for v in vs):
            return None, "IDs of the vocabulary not modelled: %s" % show(r.a[1][1])[:200]
        if sorted(vs) != list(range(len(vs))):
            return False, "the IDs of the vocabulary %s are not 0 to %d" % (show(r.a[1][1])[:200], len(vs) - 1)
        rev = {tm.numval(v): k for k, v in voc}
        rows = [tm.tlist([rev.get(tm.numval(x), mk("unk", "no such ID")) if tm.numval(x) is not None else mk("unk", "id") for x in d.a[0]]) for d in rows]
        bad = [show(x) for d in r.a[1][0].a[0] for x in d.a[0] if tm.numval(x) is not None and tm.numval(x) not in rev]
        if bad:
            return False, "the IDs %s emitted are not in the vocabulary %s" % (bad, show(r.a[1][1])[:200])
    else:
        if r.op != "list" or any(x.op != "list" for x in r.a[0]):
            return None, "shape of the result not modelled: %s" % show(r)[:200]
        rows = r.a[0]
    got = [[x.key for x in d.a[0]] for d in rows]
    if len(got) != len(want):
        return False, "%d lists for %d texts" % (len(got), len(want))
    w = [[x.key for x in d] for d in want]
    if got == w:
        return True, ""
    # equal up to stems known to be equal
    if all(len(a) == len(b) for a, b in zip(got, w)) and all(tm.eq(x, y) is TRUE for d, q in zip(rows, want) for x, y in zip(d.a[0], q)):
        return True, ""
    msg = "the tokens are %s instead of %s" % ([[show(x)[:60] for x in d.a[0]] for d in rows], [[show(x)[:60] for x in d] for d in want])
    if any(opaque_ops(x, ("call",)) for d in rows for x in d.a[0]):
        return None, msg
    return False, msg


WORST = {False: 0, None: 1, True: 2}


def worst(*vs):
    return min(vs, key=lambda x: WORST[x[0]])


def best(*vs):
    return max(vs, key=lambda x: WORST[x[0]])


def fn_cases(words, stemmer):
    """what may be known about the words: the stopwords among them, equality of their stems, order of the set of stems"""
    two = stemmer and len(words) == 2
    for n in range(len(words) + 1):
        for stop in itertools.combinations(words, n):
            for eqs in ((False, True) if two else (False,)):
                lits = fn_world(words, {w.key for w in stop}, eqs)
                for order in ((False, True) if two else (False,)):
                    yield n, stop, lits, order


def fn_scenarios(ck, pid):
    where = "tokenize"
    w1, w2 = S("w1", STR), S("w2", STR)
    e = base.engine()
    n0 = 0
    if pid == "C27":
        for stemmer in (False, True):
            for ids in (True, False):
                for shape, docs, words in (("a word", [[w1]], [w1]), ("repeated words", [[w1, w2, w1], [w2]], [w1, w2]), ("words of two texts", [[w2], [w1, w2]], [w1, w2])):
                    for lower in ((True, False) if shape == "a word" else (True,)):
                        for ae in (True, False):
                            res = {}
                            for n, stop, lits, order in fn_cases(words, stemmer):
                                kept = [[w for w in d if w not in stop] for d in docs]
                                unit = stem_of if stemmer else (lambda x: x)
                                tm.SETORDER[0] = order
                                vs = []
                                # a text that only has stopwords: C37
                                for emp in ([[], [unit(EMPTY)], [EMPTY]] if any(not d for d in kept) else [[]]):
                                    vs.append(fn_settle(e, docs, lits, [[unit(w) for w in d] or emp for d in kept], 3, stemmer=stemmer, ids=ids, lower=lower, ae=ae,
                                                        single=shape == "a word" and not lower))
                                    n0 += 1
                                    if vs[-1][0]:
                                        break
                                res[n] = worst(res.get(n, (True, "")), best(*vs))
                            tm.SETORDER[0] = False
                            for n, v in res.items():
                                ck.require("tokenize keeps the words in order: %s, return_ids=%s, lower=%s, allow_empty=%s, %s, %d stopwords" % (
                                    "stemmer" if stemmer else "no stemmer", ids, lower, ae, shape, n), v[0], where, v[1])
    else:
        for ae in (True, False):
            doc = (True, "")
            for stemmer in (False, True):
                for ids in (True, False):
                    unit = stem_of if stemmer else (lambda x: x)
                    for shape, docs, words in (("only such a text", [[]], []), ("among others", [[w1], [], [w1]], [w1])):
                        for n, stop, lits, order in fn_cases(words, stemmer):
                            kw = dict(stemmer=stemmer, ids=ids, lower=True, ae=ae)
                            vs = {}
                            for emp in ([], [unit(EMPTY)], [EMPTY]):
                                alts = [[[unit(w) for w in d if w not in stop] if d else emp for d in docs]]
                                if stop:
                                    alts.append([[unit(w) for w in d if w not in stop] or emp for d in docs])
                                vs[len(vs)] = best(*[fn_settle(e, docs, lits, a, 3, **kw) for a in alts])
                                n0 += 1
                            ck.require("tokenize represents a text without words by nothing or the empty token: %s, return_ids=%s, allow_empty=%s, %s, %d stopwords" % (
                                "stemmer" if stemmer else "no stemmer", ids, ae, shape, n), best(*vs.values())[0], where, vs[0][1])
                            doc = worst(doc, best(vs[1], vs[2]) if ae else vs[0])
            ck.require("tokenize represents a text without words as documented: allow_empty=%s" % ae, doc[0], where, doc[1])
    ck.count("function_scenarios", n0)
    ck.use(e)


def decoding(ck):
    """the string and tuple outputs denote the tokens of the ID output"""
    docs = S("docs", ListOf(ListOf(INT)))

    def inverse(name, e, r, ids, voc, where):
        h1, h2, h0 = (tm.fresh("q") for _ in range(3))
        prs = tm.comp(length(voc), TRUE, tm.ttuple([index(tm.values_(voc), h0), index(tm.keys_(voc), h0)]), h0)
        row = index(ids, h2)
        prs2 = tm.comp(length(voc), TRUE, tm.ttuple([index(voc, index(tm.keys_(voc), h0)), index(tm.keys_(voc), h0)]), h0)
        got = None
        for p in (prs, prs2):
            d = E.mkdict_(p, Ty("dict", STR))
            want = tm.comp(length(ids), TRUE, tm.comp(length(row), TRUE, index(d, index(row, h1)), h1), h2)
            if r is not None and r.key == want.key:
                got = want
        ck.same(name, r, got or want, where, "an ID is not decoded to the entry of the vocabulary that has this ID")

    for stemmer in (False, True):
        tag = "stemmer" if stemmer else "no stemmer"
        sc = Scene(stemmer)
        e = sc.e
        voc = S0 if stemmer else M0
        st = State({}, dict(e.base_heap))
        r, st = call(e, "bm25s.tokenization", "Tokenizer.get_vocab_dict", [T], {}, st)
        ck.same("%s: get_vocab_dict is the map that issues the IDs" % tag, r, voc, "Tokenizer.get_vocab_dict", "another map is returned")
        r, st = call(e, "bm25s.tokenization", "Tokenizer.decode", [T, docs], {}, State({}, dict(e.base_heap)))
        inverse("%s: decode inverts the vocabulary" % tag, e, r, docs, voc, "Tokenizer.decode")
        r, st = call(e, "bm25s.tokenization", "Tokenizer.to_tokenized_tuple", [T, docs], {}, State({}, dict(e.base_heap)))
        ck.same("%s: the tuple holds the IDs and the vocabulary" % tag, r, mk("nt", TUP, (docs, voc), ty=Ty("tuple", klass=TUP)), "Tokenizer.to_tokenized_tuple",
                "the tuple differs from the IDs given and the vocabulary")
        # outputs of one call
        w = S("w1", STR)
        fl = {w.key: dict(M=True, stop=False, W=True, S=True), EMPTY.key: dict(M=False, stop=False, W=False, S=False)}
        wd = World(stemmer, [w], fl, False)
        with tm.knowing(wd.lits):
            base_, _, _ = sc.run([[w]], FALSE, True, wd.lits)
            base_ = e.resolve(base_, State({}, {})) if base_ is not None else None
            for ra in ("ids", "tuple", "string", "stream"):
                r, o, _ = sc.run([[w]], FALSE, True, wd.lits, return_as=const(ra))
                where = "Tokenizer.tokenize"
                if ra in ("ids", "stream"):
                    ck.same("%s: return_as=%r gives the IDs" % (tag, ra), r, base_, where, "other IDs")
                elif ra == "tuple":
                    ck.same("%s: return_as='tuple' gives the IDs and the vocabulary" % tag, r, mk("nt", TUP, (base_, voc), ty=Ty("tuple", klass=TUP)), where, "other contents")
                else:
                    r2, _ = call(e, "bm25s.tokenization", "Tokenizer.decode", [T, base_], {}, State({}, dict(e.base_heap)))
                    ck.same("%s: return_as='string' gives the decoded IDs" % tag, r, r2, where, "other strings")
        ck.use(e)
        e.attr_types[(TUP, "ids")] = ListOf(ListOf(INT))
        e.attr_types[(TUP, "vocab")] = DW
        ti, tv = S("tk_ids", ListOf(ListOf(INT))), S("tk_vocab", DW)
        tk = tokd(ti, tv)
        r, st = call(e, "bm25s.tokenization", "convert_tokenized_to_string_list", [tk], {}, State({}, dict(e.base_heap)))
        inverse("%s: convert_tokenized_to_string_list inverts the vocabulary" % tag, e, r, ti, tv, "convert_tokenized_to_string_list")


def invalid(ck):
    """unknown modes are refused"""
    from .query import rejected
    sc = Scene(False)
    for n, kw in (("update_vocab", dict(update_vocab=const("sometimes"))), ("update_vocab", dict(update_vocab=NONEV)), ("return_as", dict(return_as=const("words")))):
        r, o, effs = sc.run([[]], FALSE, True, [], **kw)
        ck.require("%s=%s is rejected by ValueError" % (n, show(kw[n])), rejected(sc.e, r), "Tokenizer.tokenize", "the value is accepted")
    ck.use(sc.e)


def c25(ck):
    scenarios(ck, "C25")
    ck.guard("invalid modes", lambda: invalid(ck))


def c26(ck):
    scenarios(ck, "C26")
    ck.guard("long texts", lambda: long_scenarios(ck, "C26"))


def c27(ck):
    scenarios(ck, "C27")
    ck.guard("long texts", lambda: long_scenarios(ck, "C27"))
    ck.guard("tokenize", lambda: fn_scenarios(ck, "C27"))
    ck.guard("decode", lambda: decoding(ck))


def c37(ck):
    scenarios(ck, "C37")
    ck.guard("tokenize", lambda: fn_scenarios(ck, "C37"))


# ---------------------------------------------------------------------------------------------- files of the tokenizer
def c20(ck):
    from .io import files_written, DIR
    T2 = S("t2", Obj(TOK))
    for avail in ({}, {"orjson": True}):
        for named in (False, True):
            for what, args in (("vocab", "vocab_name"), ("stopwords", "stopwords_name")):
                for stemmer in ((True, False) if what == "vocab" else (True,)):
                    def one():
                        tag = "%s%s%s%s" % (what, ", given file name" if named else "", ", orjson" if avail else "", "" if stemmer else ", no stemmer")
                        e = base.engine(avail=avail)
                        where = "Tokenizer.load_" + what
                        e.attr_vals[(TOK, "stemmer")] = STEMMER if stemmer else NONEV
                        e.attr_vals[(TOK, "splitter")] = SPLITTER
                        types = {"word_to_id": DW, "stem_to_sid": DW, "word_to_stem": Ty("dict", STR), "stopwords": ListOf(STR)}
                        for n, ty in types.items():
                            e.attr_types[(TOK, n)] = ty
                        names = ["stopwords"]
                        if what == "vocab":
                            # everything that resetting the vocabulary resets belongs to it
                            k = len(e.effects)
                            call(e, "bm25s.tokenization", "Tokenizer.reset_vocab", [T], {}, State({}, dict(e.base_heap)))
                            names = sorted({x.d["name"] for x in e.effects[k:] if x.kind == "setattr" and pc_of(x) is not FALSE})
                            for x in e.effects[k:]:
                                if x.kind == "mutate" and x.d.get("how") == "clear":
                                    names = sorted(set(names) | {"word_to_id", "stem_to_sid", "word_to_stem"})
                            ck.require("%s: the maps of the vocabulary are known" % tag, bool(names) or None, "Tokenizer.reset_vocab", "reset_vocab sets no attribute")
                        kw = {args: S("the_name", STR)} if named else {}
                        k = len(e.effects)
                        call(e, "bm25s.tokenization", "Tokenizer.save_" + what, [T, DIR], kw, State({}, dict(e.base_heap)))
                        writes = [x for x in e.effects[k:] if x.kind in ("mutate", "setattr") and pc_of(x) is not FALSE and x.d.get("ref") is not None and
                                  any(y.key == T.key for y in tm.subterms(x.d["ref"]))]
                        ck.require("%s: saving does not change the tokenizer" % tag, not writes, writes[0].where if writes else where, "a part of the tokenizer is written")
                        del e.effects[:k]
                        fs = files_written(e)
                        e.fs = {q: v for q, (p, v) in fs.content.items()}
                        k = len(e.effects)
                        st = State({}, dict(e.base_heap))
                        m, _ = lookup(e, "bm25s.tokenization", "Tokenizer")
                        e.cur_mod = m
                        alive = True
                        try:
                            e.call(e.get_attr(T2, "load_" + what, st), [DIR], kw, st, None)
                        except Dead:
                            alive = False
                        for x in e.effects[k:]:
                            if x.kind == "open" and pc_of(x) is not FALSE and not (x.d["mode"].op == "const" and "r" not in x.d["mode"].a[0]):
                                ck.require("%s: the file read is the one written" % tag, x.d["path"].key in e.fs, x.where, "%s is read, %s written" % (
                                    show(x.d["path"]), [show(p) for p, v in fs.content.values()]), closed=not opaque_ops(x.d["path"]))
                        lost = [v for p, v in fs.content.values() if v is None]
                        if not alive:
                            ck.require("%s: what was saved can be loaded" % tag, None if lost else False, where, "loading does not return")
                        for n in names:
                            ck.same("%s: %s is restored" % (tag, n), field(e, st, T2, n) if alive else None, attr(T, n, types.get(n)), where,
                                    "%s of the loaded tokenizer differs from that of the saved one" % n)
                        ck.count("round_trips")
                        e.fs = None
                        ck.use(e)
                    ck.guard(what, one)


# ---------------------------------------------------------------------------------------------- stopword lists
# name, code, and words that occur only in that language's list (function words of the language)
LANGS = {
    "STOPWORDS_EN": (("english", "en"), ("the", "and", "with", "this")),
    "STOPWORDS_EN_PLUS": (("english_plus", "en_plus"), ("the", "because", "yourselves", "whom")),
    "STOPWORDS_GERMAN": (("german", "de"), ("und", "nicht", "einer", "zwischen")),
    "STOPWORDS_DUTCH": (("dutch", "nl"), ("het", "een", "niet", "wordt")),
    "STOPWORDS_FRENCH": (("french", "fr"), ("dans", "avec", "nous", "avait")),
    "STOPWORDS_SPANISH": (("spanish", "es"), ("los", "pero", "cuando", "estaba")),
    "STOPWORDS_PORTUGUESE": (("portuguese", "pt"), ("uma", "mais", "foram", "estava")),
    "STOPWORDS_ITALIAN": (("italian", "it"), ("gli", "della", "nella", "sono")),
    "STOPWORDS_RUSSIAN": (("russian", "ru"), ("что", "как", "его", "было")),
    "STOPWORDS_SWEDISH": (("swedish", "sv"), ("och", "att", "inte", "från")),
    "STOPWORDS_NORWEGIAN": (("norwegian", "no"), ("ikke", "etter", "hva", "jeg")),
    "STOPWORDS_CHINESE": (("chinese", "zh"), ("的", "但是", "我们", "不是")),
}


def words_of(t):
    if t is None or t.op not in ("tuple", "list") or any(x.op != "const" for x in t.a[0]):
        return None
    return [x.a[0] for x in t.a[0]]


def refused(e):
    """a call without a normal return: by ValueError (True), or by another error ("error")"""
    from .query import rejected
    rej = rejected(e, None)
    if not rej and any(x.kind in ("raise", "call_none") and not x.d.get("caught") and pc_of(x) is TRUE for x in e.effects):
        return "error"
    return rej


def stop_of(e, form, name, probe=()):
    """the stopwords that `name` selects, and whether the call is refused"""
    from .query import rejected
    del e.effects[:]
    e.steps = 0
    st = State({}, dict(e.base_heap))
    if form == "Tokenizer":
        m, cls = lookup(e, "bm25s.tokenization", "Tokenizer", st)
        e.cur_mod = m
        try:
            o = e.call(cls, [], {"stopwords": name}, st, None)
            v = e.resolve(e.deref(e.get_attr(o, "stopwords", st), st), st)
        except Dead:
            return None, refused(e)
        return v, rejected(e, o)
    e.sym_results = {"findall": lambda args, s: e.alloc(s, tm.tlist(list(probe)))}
    r, st = call(e, "bm25s", "tokenize", [tm.tlist([S("text", STR)])], dict(stopwords=name, return_ids=FALSE, show_progress=FALSE), st)
    e.sym_results = {}
    if r is None:
        return None, refused(e)
    return r, rejected(e, r)


def c28(ck):
    e = base.engine()
    e.max_unroll = 2000
    m = e.get_module("bm25s.stopwords")
    lists = {n: words_of(e.resolve(v, State({}, dict(e.base_heap)))) for n, v in m.env.items() if n.startswith("STOPWORDS")}
    w = S("w1", STR)
    for const_name, (names, markers) in LANGS.items():
        ws = lists.get(const_name)
        if const_name not in lists:
            raise Anchor("bm25s.stopwords.%s not found" % const_name)
        ck.require("%s is a list of words" % const_name, None if ws is None else bool(ws) and all(isinstance(x, str) and x for x in ws), "bm25s/stopwords.py", "not a list of words")
        if ws is None:
            continue
        for n in names + ((True,) if const_name == "STOPWORDS_EN" else ()):
            v, rej = stop_of(e, "Tokenizer", const(n))
            got = words_of(v)
            tag = "stopwords=%r" % (n,)
            if rej:
                ck.require("Tokenizer(%s) is accepted" % tag, False, "Tokenizer.__init__", "the documented name is refused")
                continue
            ck.require("Tokenizer(%s) selects the list of its language" % tag, None if got is None else all(x in got for x in markers) if const_name != "STOPWORDS_EN" else
                       set(got) == set(ws) and all(x in got for x in markers), "_infer_stopwords",
                       "the stopwords selected lack the words %s of the language; they are those of %s" % (
                           [x for x in markers if got is not None and x not in got], [q for q, y in lists.items() if y == got]))
            ck.require("Tokenizer(%s) selects the documented list" % tag, None if got is None else sorted(got) == sorted(ws), "_infer_stopwords",
                       "the stopwords selected are not those of %s but of %s" % (const_name, [q for q, y in lists.items() if y == got]))
            # the function
            probe = sorted(set(ws)) + OTHER + ([x for q, y in LANGS.items() if q not in (const_name, "STOPWORDS_EN_PLUS", "STOPWORDS_EN") for x in y[1] if x not in ws])
            r, rej = stop_of(e, "tokenize", const(n), [const(x) for x in probe])
            if rej:
                ck.require("tokenize(%s) is accepted" % tag, False, "tokenize", "the documented name is refused")
                continue
            ck.require("tokenize(%s) filters by the same list" % tag, *filters(r, [x for x in probe if x not in ws], where="tokenize"))
            ck.count("names")
    for n in (None, False):
        v, rej = stop_of(e, "Tokenizer", const(n))
        got = words_of(v)
        ck.require("Tokenizer(stopwords=%s) selects no stopwords" % n, False if rej else True if is_const(v, None) else None if got is None else not got, "_infer_stopwords", "stopwords are selected")
        probe = OTHER + [x for y in LANGS.values() for x in y[1]]
        probe = list(dict.fromkeys(probe))
        r, rej = stop_of(e, "tokenize", const(n), [const(x) for x in probe])
        ck.require("tokenize(stopwords=%s) removes nothing" % n, *((False, "tokenize", "refused") if rej else filters(r, probe, where="tokenize")))
    mine = S("mine", ListOf(STR))
    v, rej = stop_of(e, "Tokenizer", mine)
    ck.same("Tokenizer(stopwords=list) keeps the list given", v, mine, "_infer_stopwords", "the stopwords differ from the list given")
    r, rej = stop_of(e, "tokenize", mine, [w])
    c = contains_(w, mine)
    ck.same("tokenize(stopwords=list) filters by the list given", r, tm.tlist([ite(c, tm.tlist([]), tm.tlist([w]))]), "tokenize", "a word is removed under another condition", allow=())
    for bad in ("klingon", "EN_GB", ""):
        v, rej = stop_of(e, "Tokenizer", const(bad))
        ck.require("Tokenizer(stopwords=%r) is rejected by ValueError" % bad, rej if rej != "error" else False, "_infer_stopwords", "an unknown name is accepted")
        r, rej = stop_of(e, "tokenize", const(bad))
        ck.require("tokenize(stopwords=%r) is rejected by ValueError" % bad, rej if rej != "error" else False, "_infer_stopwords", "an unknown name is accepted")
    ck.use(e)


OTHER = ["\u241f", "zzyzx", "bm25s"]      # in no list


def filters(r, want, where):
    """are exactly the words `want` left?"""
    row = index(r, ZERO) if r is not None and r.op == "list" and len(r.a[0]) == 1 else None
    got = words_of(row)
    if got is None:
        return None, where, "the words left are not modelled: %s" % (show(r)[:200] if r is not None else None)
    if got == want:
        return True, where, ""
    return False, where, "kept although a stopword: %s; removed although none: %s" % ([x for x in got if x not in want][:5], [x for x in want if x not in got][:5])
