#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]

Decides one property of /repo by static analysis (see DESIGN.md).  Exit 0: every obligation of the property was
established (or left undecided on changed code the analysis cannot follow); exit 1: a construct of the current source
violates it (a VIOLATION line is printed); exit 2: the analysis itself is broken (an anchor vanished, a module does not
parse, or nothing was analysed)."""
import ctypes
import json
import os
import resource
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import threading  # noqa

from vg.rules import base  # noqa
from vg.rules.registry import RULES  # noqa


DONE = []
TIME = {"quick": 400, "thorough": 780}


def load_known():
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            l = l.strip()
            if l.startswith("known: "):
                rest = l[len("known: "):]
                head, what = rest.split(" ", 1)
                pid = head.split("=", 1)[1]
                name, _, desc = what.partition(" :: ")
                out.setdefault(pid, {})[name] = desc
    return out


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ev = os.environ.get("VG_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    fn, minimum, rule = RULES[pid]
    ck = base.Check(pid, tier, seed)
    try:
        fn(ck)
    except base.Budget as ex:
        ck.add("the remaining obligations", base.UNDEC, "analysis budget: %s" % ex)
    except MemoryError:
        ck.add("the remaining obligations", base.UNDEC, "analysis memory")
    except base.AnalysisError as ex:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, ex))
        return 2
    except Exception as ex:
        if os.environ.get("VG_DEBUG"):
            raise
        import traceback
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        ck.add("the remaining obligations", base.UNDEC, "unexpected shape: %s: %s (%s:%d)" % (type(ex).__name__, ex, os.path.basename(tb.filename), tb.lineno))
    DONE.append(1)
    known = load_known().get(pid, {})
    obl = ck.obl
    bad = [o for o in obl if o[1] == base.BAD]
    und = [o for o in obl if o[1] == base.UNDEC]
    okk = [o for o in obl if o[1] == base.OK]
    listed = [o for o in bad if o[0] in known]
    fresh = [o for o in bad if o[0] not in known]
    if len(obl) < max(3, minimum // 3) and not und and not bad:
        print("ANALYSIS-BROKEN property=%s only %d obligations were generated (%d on the tree the check was written for)" % (pid, len(obl), minimum))
        return 2
    for o in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, o[0] + ": " + known[o[0]]))
    rp = os.path.join(ev, pid + ".replay.txt")
    if fresh:
        with open(rp, "w", encoding="utf-8") as f:
            f.write("property %s: %d violated obligation(s)\n" % (pid, len(fresh)))
            for n, _, d, w in fresh:
                f.write("\n[%s]\n  where: %s\n  %s\n" % (n, w, d))
            f.write("\nre-run: cd %s && python3 check.py %s --tier %s\n" % (HERE, pid, tier))
    elif os.path.exists(rp):
        os.remove(rp)
    doc = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": rule + " Deciding step: the source of %s is parsed and interpreted abstractly (interprocedural value numbering over guarded terms); each obligation compares computed terms, effects or path conditions with what the property requires. Nothing is executed." % base.ROOT,
            "obligations": len(obl), "discharged": len(okk), "undecided": len(und), "violated": len(bad),
            "known_findings": len(listed),
            "functions_analysed": sorted(ck.funcs), "call_sites_resolved": ck.calls, "abstract_runs": ck.engines,
            "instances": ck.counts, "constructs_not_modelled": ck.unmodelled,
            "obligation_names": [o[0] for o in obl][:60],
            "undecided_obligations": [[o[0], o[2][:200]] for o in und][:40],
            "rule": rule,
            "samples": [{"obligation": o[0], "verdict": o[1], "where": o[3]} for o in obl[:5]],
        },
        "assumptions": ["arithmetic over the reals (floating-point rounding is out of scope)",
                        "models of the Python builtins, numpy, scipy and standard library calls used by the package (vg/models.py)"],
        "wall_s": round(time.time() - t0, 3), "violations": len(fresh),
    }
    with open(os.path.join(ev, pid + ".json"), "w", encoding="utf-8") as f:
        json.dump(doc, f, indent=1)
    print("%s: %d obligations, %d established, %d undecided, %d violated; %d functions, %.1fs" % (
        pid, len(obl), len(okk), len(und), len(bad), len(ck.funcs), time.time() - t0))
    for o in und[:20]:
        print("  undecided: %s (%s)" % (o[0], o[2][:160].replace("\n", " ")))
    if fresh:
        for n, _, d, w in fresh[:10]:
            print("  violated: %s [%s] %s" % (n, w, d[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    res = [3]
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))

    def run():
        try:
            res[0] = main()
        except SystemExit as ex:
            res[0] = ex.code or 0
        except BaseException:
            import traceback
            traceback.print_exc()
            res[0] = 2
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=run)
    t.start()
    tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv[:-1] else os.environ.get("VERIF_TIER", "quick")
    t.join(float(os.environ.get("VG_TIME") or TIME.get(tier, TIME["quick"])))
    while t.is_alive() and not DONE:
        # out of time: what is not decided by now stays undecided
        base.Engine.expired = True
        ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(base.Budget))
        t.join(5)
    t.join()
    sys.stdout.flush()
    os._exit(res[0])
