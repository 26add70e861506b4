"""C23 (temporary files of uploads) and C24 (options of the hub functions)."""
from .base import *  # noqa
from . import base

MOD = "bm25s.hf"
HF = MOD + ".BM25HF"
THF = MOD + ".TokenizerHF"
LOCAL = S("local_dir", STR)
REPO = S("repo_id", STR)
TOKEN = S("token", STR)
MSG = S("commit_message", STR)
PRIVATE = S("private", BOOL)
REV = S("revision", STR)
EXTRA = {"revision": REV, "ignore_patterns": S("ignore_patterns", STR)}
UPLOADS = (("BM25HF.save_to_hub", HF), ("TokenizerHF.save_vocab_to_hub", THF), ("TokenizerHF.save_stopwords_to_hub", THF))
# name: (local_dir, overwrite_local, names in the directory, the directory exists, files go to the caller's directory)
SCENES = {
    "no local directory": (NONEV, FALSE, (), True, False),
    "no local directory, overwrite": (NONEV, TRUE, (), True, False),
    "new local directory": (LOCAL, FALSE, (), False, True),
    "empty local directory": (LOCAL, FALSE, (), True, True),
    "local directory with one file": (LOCAL, FALSE, ("notes.txt",), True, False),
    "local directory with a hidden file": (LOCAL, FALSE, (".git",), True, False),
    "local directory with several files": (LOCAL, FALSE, ("params.index.json", "README.md", ".git", "a"), True, False),
    "local directory with files, overwrite": (LOCAL, TRUE, ("params.index.json", "README.md", ".git"), True, True),
}
# effects that cannot fail, or that only describe the analysis
INERT = {"enter", "break", "clock", "handler", "ctx_exit", "setattr", "setitem", "import_req", "nthreads_get", "name_error", "attr_none"}


class Run:
    def __init__(self, ck, fn, cls, scene, **kw):
        local, ow, entries, there, self.to_local = SCENES[scene]
        e = self.e = base.engine()
        m = e.get_module(MOD)
        if "__dead__" in m.env:
            raise Anchor("bm25s.hf cannot be analysed")
        e.fs_entries = list(entries)
        e.attr_vals[(cls, "corpus")] = NONEV
        for k, t in (("word_to_id", Ty("dict", NAT)), ("stem_to_sid", Ty("dict", NAT)), ("word_to_stem", Ty("dict", STR)), ("stopwords", ListOf(STR))):
            e.attr_types[(cls, k)] = t
        self.self = S("self", Obj(cls))
        st = State({}, dict(e.base_heap))
        args = {"local_dir": local, "overwrite_local": ow, "token": TOKEN, "commit_message": MSG, "private": PRIVATE, **EXTRA, **kw}
        self.there = there
        self.r, self.st = call(e, MOD, fn, [self.self, REPO], args, st)
        ck.use(e)
        ck.count("scenarios")

    def f(self, t):
        """simplify what is known about the local directory in this scenario"""
        known = {}
        for x in tm.find_ops(t, "exists"):
            if root(x.a[0]) == LOCAL.key and x.a[0].op == "path":
                known[x.key] = self.there and x.a[1] != "isfile"
        known[tm.lt0(sub(length(LOCAL), ONE)).key] = False
        return tm.restrict(t, known)

    def pc(self, x, exc=None):
        t = self.f(pc_of(x))
        if exc is not None:
            t = tm.restrict(t, {y.key: exc for y in tm.find_ops(t, "exc")})
        return t

    def live(self, *kinds):
        return [x for x in self.e.effects if (not kinds or x.kind in kinds) and self.pc(x) is not FALSE]


def root(t):
    """key of the term a path is built on"""
    while t.op in ("path", "pjoin", "cat", "splitext0", "strof", "fspath", "abspath", "realpath", "normpath", "expanduser", "resolve", "absolute", "with_suffix", "with_name", "with_stem"):
        t = t.a[0][0] if t.op == "cat" else t.a[0]
    if t.op in ("sym", "tempname", "const") or t.op in ("call", "callres") and show(t.a[0]) == "tempfile.gettempdir":
        return t.key
    return None


def hub_ops(run, name):
    """calls of a hub function: [(effect, receiver or None, positional, keyword)]"""
    out = []
    for x in run.live("method", "call"):
        if x.kind == "method" and x.d["name"] == name:
            out.append((x, x.d["recv"], [run.f(a) for a in x.d["args"]], {k: run.f(v) for k, v in x.d["kwargs"].items()}))
        elif x.kind == "call" and isinstance(x.d.get("name"), str) and x.d["name"].startswith("huggingface_hub.") and x.d["name"].endswith("." + name):
            out.append((x, None, [run.f(a) for a in x.d["args"]], {k: run.f(v) for k, v in x.d["kwargs"].items()}))
    return out


def is_api(t):
    return t is not None and t.op in ("call", "callres") and isinstance(t.a[0], tm.T) and t.a[0].op == "ext" and t.a[0].a[0] == "huggingface_hub.HfApi"


def api_token(t):
    """the token a client was made with"""
    d = {(k.a[0] if isinstance(k, tm.T) else k): v for p in t.a[1:] if isinstance(p, tuple) for k, v in p}
    return d.get("token", NONEV)


def token_ok(run, recv, kw):
    """is the call made with the caller's token?"""
    t = kw.get("token", kw.get("use_auth_token", NONEV))
    if t.key == TOKEN.key:
        return True
    if t.op == "bmeth" and is_api(t.a[0]) and t.a[1] in ("token",):
        return api_token(t.a[0]).key == TOKEN.key
    if t is NONEV or tm.is_const(t, None):
        return is_api(recv) and api_token(recv).key == TOKEN.key
    return None if opaque_ops(t) or t.op == "bmeth" else False


def created_id(t):
    """is t the ID of a repository returned by create_repo?"""
    return t.op in ("bmeth", "attr") and t.a[1] == "repo_id" and is_created(t.a[0])


def is_created(t):
    return t.op == "meth" and len(t.a) > 1 and t.a[1] == "create_repo" or t.op in ("call", "callres") and isinstance(t.a[0], tm.T) and t.a[0].op == "ext" and str(t.a[0].a[0]).endswith(".create_repo")


def writes(run):
    """[(path, effect)] of everything put into the file system"""
    out = []
    for x in run.live("open", "np.save", "mkdir", "replace", "copyfile", "remove"):
        if x.kind == "open":
            if x.d["mode"].op == "const" and not set("wax+") & set(str(x.d["mode"].a[0])):
                continue
            out.append((run.f(x.d["path"]), x))
        elif x.kind in ("replace", "copyfile"):
            out.append((run.f(x.d["dst"]), x))
        else:
            out.append((run.f(x.d["path"]), x))
    return out


# ---------------------------------------------------------------------------- C23
def c23(ck):
    for fn, cls in UPLOADS:
        for scene in SCENES:
            ck.guard("%s, %s" % (fn, scene), lambda: temporaries(ck, fn, Run(ck, fn, cls, scene), "%s, %s" % (fn, scene)))


def temporaries(ck, fn, run, tag):
    temps = run.live("tempdir")
    dels = run.live("rmtree")
    exits = run.live("ctx_exit")
    if not run.to_local:
        ck.require("%s: the files are written in a fresh temporary directory" % tag, True if temps else None, fn, "no temporary directory is created")
    names = {t.d["path"].key for t in temps}
    for d in dels:
        p = run.f(d.d["path"])
        ck.require("%s: only a temporary directory of this call is removed" % tag, p.op == "path" and p.a[0].key in names, d.where, "%s is removed" % show(p)[:200],
                   closed=root(p) is not None or not opaque_ops(p))
    for t in temps:
        name = t.d["path"]
        ck.count("temporary_directories")
        mine = [d for d in dels if run.f(d.d["path"]).op == "path" and run.f(d.d["path"]).a[0].key == name.key]
        if t.d["managed"]:
            mine += [x for x in exits if isinstance(x.d["cm"], tm.T) and x.d["cm"].key == t.d["ref"].key]
        unknown = [d for d in dels if d not in mine and opaque_ops(run.f(d.d["path"]))]
        normal = [d for d in mine if not (d.fin and d.fin[1] == "exc") and run.pc(d, exc=False) is not FALSE]
        cover = FALSE
        for d in normal:
            cover = tm.lor(cover, run.pc(d, exc=False))
        gone = implies(run.pc(t, exc=False), cover)
        ck.require("%s: the temporary directory is removed when the function returns" % tag, gone, t.where,
                   "created at %s, removed %s" % (t.where, "only when %s" % show(cover)[:300] if normal else "nowhere on a normal exit"),
                   closed=not unknown and not t.d["managed"] and not opaque_ops(cover))
        # exceptional exits
        fids = {d.fin[0] for d in mine if d.fin and d.fin[1] == "exc"}
        handlers = [d for d in mine if not d.fin and run.pc(d, exc=False) is FALSE]
        end = min([d.seq for d in normal], default=10 ** 12)
        late = []
        for x in run.live():
            if not t.seq < x.seq < end or x.kind in INERT or x in mine or set(x.prot) & fids or x.fin and x.fin[0] in fids:
                continue
            if any(tr.atom is not None and tr.atom.key in {y.key for y in tm.find_ops(pc_of(d), "exc")} for d in handlers for tr in x.tries):
                continue
            if x.kind == "raise" and any(d.seq < x.seq for d in handlers):
                continue
            late.append(x)
        # handlers whose try cannot be told from here
        vague = handlers and any(not any(tr.atom is not None for tr in x.tries) for x in late)
        ck.require("%s: the temporary directory is removed when the function fails" % tag, not late, late[0].where if late else t.where,
                   "the directory created at %s stays when the %s at %s raises" % (t.where, late[0].kind, late[0].where) if late else "",
                   closed=not unknown and not vague and not t.d["managed"])
    # where files go
    for p, x in writes(run):
        r = root(p)
        ck.count("files_written")
        if run.to_local:
            ck.require("%s: files go to the caller's directory" % tag, r == LOCAL.key, x.where, "%s is written" % show(p)[:200], closed=r is not None and not opaque_ops(p))
        else:
            ck.require("%s: nothing is written outside the temporary directory" % tag, r in names, x.where, "%s is written" % show(p)[:200],
                       closed=r is not None and not opaque_ops(p))


# ---------------------------------------------------------------------------- C24
def c24(ck):
    for fn, cls in UPLOADS:
        for scene in ("no local directory", "empty local directory", "local directory with several files", "local directory with files, overwrite"):
            def one():
                tag = "%s, %s" % (fn, scene)
                kw = {}
                if cls == HF:
                    kw = {"corpus": S("corpus", ListOf(STR)), "allow_pickle": S("allow_pickle", BOOL), "include_readme": S("include_readme", BOOL)}
                run = Run(ck, fn, cls, scene, **kw)
                upload(ck, fn, cls, run, tag, kw)
            ck.guard("%s, %s" % (fn, scene), one)
    loads(ck)


def given(ck, tag, what, got, want, where):
    if got is None:
        ck.require("%s: %s" % (tag, what), False, where, "the option is not passed")
    else:
        ck.same("%s: %s" % (tag, what), got, want, where, "another value is passed")


def upload(ck, fn, cls, run, tag, kw):
    cr = hub_ops(run, "create_repo")
    up = hub_ops(run, "upload_folder")
    escape = [x for x in run.live("call") if x.d.get("name", "").startswith("huggingface_hub.") and x.d["name"] != "huggingface_hub.HfApi"]
    if len(cr) != 1 or len(up) != 1:
        ck.require("%s: one repository is created and one folder uploaded" % tag, None if len(up) > 1 or len(cr) > 1 or escape else False, fn,
                   "%d calls of create_repo, %d of upload_folder" % (len(cr), len(up)))
        return
    c, crecv, cargs, ckw = cr[0]
    u, urecv, uargs, ukw = up[0]
    ck.count("uploads")
    ck.require("%s: the upload happens on every normal path" % tag, run.pc(u, exc=False) is TRUE and not u.loops, u.where, "only when %s" % show(run.pc(u))[:200],
               closed=not opaque_ops(run.pc(u)))
    ck.require("%s: the repository exists before the upload" % tag, c.seq < u.seq and run.pc(c, exc=False) is TRUE, u.where, "create_repo comes later or not always",
               closed=not opaque_ops(run.pc(c)))
    given(ck, tag, "the repository created is the one named", cargs[0] if cargs else ckw.get("repo_id"), REPO, c.where)
    given(ck, tag, "the repository is as private as asked for", ckw.get("private"), PRIVATE, c.where)
    ck.require("%s: an existing repository is used" % tag, tm.is_const(ckw.get("exist_ok", FALSE), True), c.where, "create_repo fails for an existing repository",
               closed=not opaque_ops(ckw.get("exist_ok", FALSE)))
    for what, recv, k, x in (("created", crecv, ckw, c), ("uploaded to", urecv, ukw, u)):
        ck.require("%s: the repository is %s with the caller's token" % (tag, what), token_ok(run, recv, k), x.where, "token %s, client %s" % (
            show(k.get("token", NONEV)), show(recv)[:200] if recv is not None else None))
    rid = ukw.get("repo_id", uargs[0] if uargs else None)
    ck.require("%s: the upload goes to the repository created" % tag, rid is not None and created_id(rid), u.where,
               "the upload goes to %s" % (show(rid)[:300] if rid is not None else None), closed=rid is None or rid.op in ("sym", "const") or not opaque_ops(rid, allow=("meth", "call")))
    rt = ukw.get("repo_type", NONEV)
    ct = ckw.get("repo_type", NONEV)
    good = rt.key == ct.key or rt.op == "bmeth" and rt.a[1] == "repo_type" and is_created(rt.a[0]) or {show(rt), show(ct)} <= {"None", "'model'"}
    ck.require("%s: the upload uses the type of the repository created" % tag, good, u.where, "repository type %s, created as %s" % (show(rt), show(ct)), closed=rt.op == "const")
    given(ck, tag, "the commit message is the caller's", ukw.get("commit_message"), MSG, u.where)
    for k, v in EXTRA.items():
        given(ck, tag, "further options (%s) reach the upload" % k, ukw.get(k), v, u.where)
    ck.require("%s: nothing but the folder is put in the upload" % tag, not set(ukw) & {"path_in_repo"} or tm.is_const(ukw.get("path_in_repo"), None) or None, u.where, "path_in_repo is set")
    folder = ukw.get("folder_path", uargs[1] if len(uargs) > 1 else None)
    dirs = {}
    for p, x in writes(run):
        if x.kind in ("open", "np.save") and x.seq < u.seq:
            if p.op == "pjoin" or root(p) is None:
                dirs.setdefault(p.a[0].key if p.op == "pjoin" else None, x)
    if folder is None:
        ck.require("%s: a folder is uploaded" % tag, False, u.where, "folder_path is not passed")
    else:
        fp = E.path(folder)
        ck.require("%s: the folder uploaded is the one saved to" % tag, set(dirs) == {fp.key}, u.where, "%s is uploaded, files were written in %s" % (
            show(fp)[:200], [show(p)[:100] for p, _ in writes(run)][:3]), closed=not opaque_ops(fp) and None not in dirs)
        for d in run.live("rmtree", "remove"):
            if d.seq < u.seq:
                ck.require("%s: the files are there when they are uploaded" % tag, False, d.where, "%s is removed before the upload" % show(d.d["path"])[:200],
                           closed=run.pc(d, exc=False) is not FALSE and not opaque_ops(run.f(d.d["path"])))
    # what is saved
    target = {"BM25HF.save_to_hub": "bm25s.BM25.save", "TokenizerHF.save_vocab_to_hub": TOK + ".save_vocab", "TokenizerHF.save_stopwords_to_hub": TOK + ".save_stopwords"}[fn]
    ent = [x for x in run.live("enter") if x.d["func"] == target]
    if len(ent) != 1:
        std = standard_file(run.e, target)
        there = std is None or any(tm.is_const(p.a[1], std) for p, _ in writes(run) if p.op == "pjoin")
        ck.require("%s: what was asked for is saved" % tag, False if not ent and not there else None, fn, "%d calls of %s; files: %s" % (
            len(ent), target, sorted({show(p)[:80] for p, _ in writes(run)})))
    else:
        x = ent[0]
        env = x.d["env"]
        ck.require("%s: saved before the upload, on every path" % tag, x.seq < u.seq and run.pc(x, exc=False) is TRUE, x.where, "saved only when %s, or after the upload" % show(run.pc(x))[:200],
                   closed=not opaque_ops(run.pc(x)))
        ck.same("%s: the object itself is saved" % tag, env.get("self", NONEV), run.self, x.where, "another object is saved")
        for k in ("corpus", "allow_pickle"):
            if cls == HF:
                ck.same("%s: %s is passed on" % (tag, k), run.f(env.get(k, NONEV)), kw[k], x.where, "%s of the saved index" % k)
        for k, v in env.items():
            if k.endswith("_name") or k == "show_progress":
                d = default_of(run.e, target, k)
                if d is not None and k.endswith("_name"):
                    ck.same("%s: the standard %s is used" % (tag, k), run.f(v), d, x.where, "loading from the hub looks for the standard name")
    if cls == HF:
        readme(ck, run, tag, u, kw["include_readme"])
    ck.require("%s: the URL of the repository is returned" % tag, run.r is not None and is_created(run.f(run.r)), fn, "returned: %s" % (show(run.r)[:200] if run.r is not None else None),
               closed=run.r is None or not opaque_ops(run.r, allow=("meth", "call")))


def readme(ck, run, tag, u, flag):
    ws = [(p, x) for p, x in writes(run) if x.kind == "open" and p.op == "pjoin" and tm.is_const(p.a[1], "README.md")]
    conds = [run.pc(x, exc=False) for _, x in ws]
    cover = FALSE
    for c in conds:
        cover = tm.lor(cover, c)
    if not ws:
        ck.require("%s: the README is written" % tag, None if any(opaque_ops(p) for p, _ in writes(run)) else False, "BM25HF.save_to_hub", "no file README.md is written")
        return
    ck.same("%s: a README is written exactly when asked for" % tag, cover, flag, ws[0][1].where, "condition of the README")
    for p, x in ws:
        body = [w for w in run.live("write") if w.d["file"].key == x.d["file"].key]
        ck.require("%s: the README is complete before the upload" % tag, bool(body) and all(w.seq < u.seq for w in body), x.where, "written after the upload, or not at all")
        closed = [y for y in run.live("ctx_exit", "close") if isinstance(y.d.get("ref", y.d.get("value")), tm.T) and y.d.get("ref", y.d.get("value")).key == x.d["file"].key and y.seq < u.seq]
        ck.require("%s: the README is closed before the upload" % tag, bool(closed), x.where, "the file is uploaded while it may hold unwritten text")
        if len(body) != 1:
            continue
        parts = body[0].d["content"]
        parts = list(parts.a[0]) if parts.op == "cat" else [parts]
        sc = attr(run.self, "scores")
        want = {"| k1 | `": attr(run.self, "k1"), "| b | `": attr(run.self, "b"), "| delta | `": attr(run.self, "delta"), "| method | `": attr(run.self, "method"),
                "| idf method | `": attr(run.self, "idf_method"), "| Number of documents | ": index(sc, const("num_docs"))}
        for label, v in want.items():
            i = [n for n, q in enumerate(parts) if tm.is_const(q) and str(q.a[0]).endswith(label)]
            if len(i) != 1 or i[0] + 1 >= len(parts):
                ck.add("%s: the README shows %s" % (tag, label.strip("| `")), UNDEC, "README template not recognised", x.where)
                continue
            got = parts[i[0] + 1]
            while got.op in ("strof", "fmt", "str", "format"):
                got = got.a[0]
            ck.require("%s: the README shows %s" % (tag, label.strip("| `")), base.strip(got).key == base.strip(v).key or show(got) == show(v), x.where,
                       "after %r stands %s" % (label, show(got)[:100]), closed=not opaque_ops(got))


LOADS = (("BM25HF.load_from_hub", HF, "bm25s.BM25.load"), ("TokenizerHF.load_vocab_from_hub", THF, TOK + ".load_vocab"),
         ("TokenizerHF.load_stopwords_from_hub", THF, TOK + ".load_stopwords"))


def loads(ck):
    for fn, cls, target in LOADS:
        for local in (NONEV, LOCAL):
            def one():
                tag = "%s, %s" % (fn, "no local directory" if local is NONEV else "local directory")
                e = base.engine()
                e.get_module(MOD)
                kw = {"revision": REV, "token": TOKEN, "local_dir": local}
                opts = {}
                if cls == HF:
                    opts = {"load_corpus": S("load_corpus", BOOL), "mmap": S("mmap", BOOL), "allow_pickle": S("allow_pickle", BOOL)}
                me = S("self", Obj(cls))
                run = Run.__new__(Run)
                run.e, run.there, run.self = e, True, me
                run.r, run.st = call(e, MOD, fn, [REPO] if cls == HF else [me, REPO], {**kw, **opts}, State({}, dict(e.base_heap)))
                ck.use(e)
                ck.count("downloads")
                dn = hub_ops(run, "snapshot_download")
                if len(dn) != 1:
                    ck.require("%s: one snapshot is downloaded" % tag, None if dn or run.live("call") else False, fn, "%d calls of snapshot_download" % len(dn))
                    return
                x, recv, args, k = dn[0]
                given(ck, tag, "the repository named is downloaded", args[0] if args else k.get("repo_id"), REPO, x.where)
                given(ck, tag, "the revision named is downloaded", k.get("revision"), REV, x.where)
                if local is not NONEV or "local_dir" in k:
                    given(ck, tag, "the snapshot goes to the directory named", k.get("local_dir"), local, x.where)
                ck.require("%s: the snapshot is downloaded with the caller's token" % tag, token_ok(run, recv, k), x.where, "token %s" % show(k.get("token", NONEV)))
                for o in ("allow_patterns", "ignore_patterns"):
                    ck.require("%s: the whole snapshot is downloaded" % tag, True if o not in k or tm.is_const(k[o], None) else None, x.where, "%s is set" % o)
                for y, rr, a, kk in hub_ops(run, "repo_info"):
                    ck.require("%s: the repository is looked up with the caller's token" % tag, token_ok(run, rr, kk), y.where, "token %s" % show(kk.get("token", NONEV)))
                    given(ck, tag, "the repository looked up is the one named", a[0] if a else kk.get("repo_id"), REPO, y.where)
                ent = [y for y in run.live("enter") if y.d["func"] == target]
                if len(ent) != 1:
                    std = standard_file(e, target)
                    rd = [y.d["path"] for y in run.live("open", "np.load")]
                    there = std is None or any(tm.is_const(p.a[1], std) for p in rd if p.op == "pjoin")
                    ck.require("%s: what was asked for is loaded" % tag, False if not ent and not there else None, fn, "%d calls of %s; files: %s" % (
                        len(ent), target, sorted({show(p)[-60:] for p in rd})))
                    return
                y = ent[0]
                env = y.d["env"]
                sd = env.get("save_dir", NONEV)
                while sd.op in ("path", "strof", "fspath"):
                    sd = sd.a[0]
                snap = sd.op == "meth" and len(sd.a) > 1 and sd.a[1] == "snapshot_download" or sd.op in ("call", "callres") and "snapshot_download" in show(sd.a[0])
                ck.require("%s: what is loaded is the snapshot downloaded" % tag, snap, y.where, "%s is loaded" % show(sd)[:300], closed=not opaque_ops(sd, allow=("meth", "call")))
                pc = run.pc(y, exc=False)
                none = {z.key: False for z in tm.find_ops(pc, "is") if any(q.op == "meth" for q in z.a if isinstance(q, tm.T)) and any(tm.is_const(q, None) for q in z.a if isinstance(q, tm.T))}
                pc = tm.restrict(pc, none)
                ck.require("%s: a snapshot found is loaded" % tag, pc is TRUE, y.where, "only when %s" % show(pc)[:200], closed=not opaque_ops(pc))
                for o, v in opts.items():
                    given(ck, tag, "%s is passed on" % o, env.get(o), v, y.where)
                if cls == HF:
                    c = env.get("cls")
                    ck.require("%s: an index of the hub class is made" % tag, c is not None and c.op == "class" and c.a[0] == HF, y.where, "class %s" % (show(c) if c is not None else None),
                               closed=c is not None and c.op == "class")
                    for o in [o for o in env if o.endswith("_name")]:
                        d = default_of(e, target, o)
                        if d is not None:
                            ck.same("%s: the standard %s is used" % (tag, o), env[o], d, y.where, "saving to the hub uses the standard name")
                else:
                    ck.same("%s: the tokenizer itself is loaded" % tag, env.get("self", NONEV), me, y.where, "another object is loaded")
            ck.guard("%s" % fn, one)


def default_of(e, qual, name):
    """the constant default of a parameter, or None"""
    cls, fn = qual.rsplit(".", 1)
    f, _ = e.find_method(e.classes[cls], fn)
    a = e.funcs[f.a[0]].node.args
    d = dict(zip([x.arg for x in a.args][::-1], a.defaults[::-1]))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    v = d.get(name)
    return const(v.value) if hasattr(v, "value") and isinstance(v.value, (str, int, bool, type(None))) else None


def standard_file(e, qual):
    """a file that the function reads or writes by default, or None"""
    for n in ("vocab_name", "stopwords_name", "data_name"):
        d = default_of(e, qual, n)
        if d is not None:
            return d.a[0]
    return None
