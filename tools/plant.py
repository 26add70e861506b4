#!/usr/bin/env python3
"""plant.py SPEC.py [id ...]: create /verif/seeded/<id>/ from a spec (BUGS = {id: dict(prop, files=[(path, old, new)], demo=python text,
needs, breaks)}), confirm it in a scratch copy of /repo, and report which checks of its property catch it."""
import json, os, shutil, subprocess, sys, runpy, tempfile
from concurrent.futures import ThreadPoolExecutor
import xml.etree.ElementTree as ET
PY = "/opt/venv/bin/python"
ENV = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "HF_HUB_OFFLINE": "1", "JAX_PLATFORMS": "cpu", "HOME": "/root", "LANG": "C.UTF-8"}
SEED = "/verif/seeded"
base = json.load(open("/opt/vp/BASELINE.json"))

def stable():
    for k in ("stable", "passed", "pass", "tests"):
        if isinstance(base.get(k), list):
            return set(base[k])
    return None

def run(cmd, cwd, env=None, t=600):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)

def one(bid, b):
    wt = tempfile.mkdtemp(prefix="plant_")
    try:
        r = wt + "/repo"
        run(["cp", "-a", "/repo", r], "/")
        for f, old, new in b["files"]:
            p = os.path.join(r, f)
            s = open(p, encoding="utf-8").read()
            if s.count(old) != 1:
                return "%s: text occurs %d times in %s" % (bid, s.count(old), f)
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        d = os.path.join(SEED, bid)
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(["git", "diff"], cwd=r, stdout=subprocess.PIPE, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# run in the repository; exits 0 when the property holds\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        # lines blamed on the original repository
        removed = []
        for f, old, new in b["files"]:
            bl = run(["git", "blame", "-s", f], "/repo").stdout.splitlines()
            src = open("/repo/" + f).read()
            l0 = src[:src.index(old)].count("\n")
            import difflib
            o, n = old.split("\n"), new.split("\n")
            for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, o, n).get_opcodes():
                if tag in ("replace", "delete"):
                    removed += [(bl[l0 + i].split()[0]) for i in range(i1, i2)]
        basec = subprocess.run(["git", "rev-parse", "a0e3dca"], cwd="/repo", stdout=subprocess.PIPE, text=True).stdout[:7]
        orig = all(basec.startswith(x.lstrip("^")[:7]) for x in removed)
        d0 = run(["bash", d + "/demo.sh"], "/repo")
        d1 = run(["bash", d + "/demo.sh"], r)
        junit = wt + "/j.xml"
        env = {**ENV, "PYTHONPATH": r}
        run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + junit, "tests/core", "tests/numba", "tests/stopwords"], r, env)
        failed, passed = set(), set()
        for tc in ET.parse(junit).getroot().iter("testcase"):
            nm = tc.get("classname") + "::" + tc.get("name")
            (failed if tc.find("failure") is not None or tc.find("error") is not None else passed).add(nm)
        ck = run(["python3", "check.py", b["prop"]], "/verif", {**ENV, "VG_REPO": r, "VG_EVIDENCE": wt})
        v = "CAUGHT" if ck.returncode == 1 and "VIOLATION property=%s" % b["prop"] in ck.stdout else "missed(rc=%d)" % ck.returncode
        msg = "%s: demo clean=%d bug=%d; tests passed=%d; original lines=%s; %s %s" % (bid, d0.returncode, d1.returncode, len(passed), orig, b["prop"], v)
        if d0.returncode:
            msg += "\n   clean demo: " + d0.stdout[-600:]
        if not d1.returncode:
            msg += "\n   bug demo passes: " + d1.stdout[-300:]
        if v != "CAUGHT" or os.environ.get("V"):
            msg += "\n   " + ck.stdout[:1500].replace("\n", "\n   ")
        return msg
    finally:
        shutil.rmtree(wt, ignore_errors=True)

if __name__ == "__main__":
    B = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:] or list(B)
    with ThreadPoolExecutor(4) as ex:
        for m in ex.map(lambda i: one(i, B[i]), ids):
            print(m, flush=True)
