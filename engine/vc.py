"""Run one contract (or all matching a prefix) on an IR file; used by the driver in worker processes."""
import sys
import os
import time
import traceback
sys.path.insert(0, os.path.dirname(__file__))
import z3
import lin
import real
from llparse import Module, Unsupported
from execu import Engine, NeedSummary, GiveUp, short_name


def prove(mod, name, limits=None, timeout=20000, sink=None):
    """-> result dict"""
    t0 = time.time()
    summ = set()
    for attempt in range(6):
        lin.SYMS.clear()
        real.reset()
        eng = Engine(mod, timeout=timeout, limits=limits, sink=sink)
        eng.summarise = set(summ)
        status, reason = "ok", ""
        try:
            eng.run(name)
        except NeedSummary as n:
            if (n.fn, n.header) in summ:
                status, reason = "undecided", "loop at %s %s has no summary" % (short_name(n.fn), n.header)
            else:
                summ.add((n.fn, n.header))
                continue
        except Unsupported as u:
            status, reason = "undecided", "outside the verifier's reach: %s" % u
        except GiveUp as g:
            status, reason = "undecided", "gave up: %s" % g
        except z3.Z3Exception as x:
            status, reason = "undecided", "solver error: %s" % x
        except RecursionError:
            status, reason = "undecided", "recursion"
        except Exception as x:
            status, reason = "undecided", "internal: %s" % traceback.format_exc()[-600:]
        break
    else:
        status, reason = "undecided", "too many loops without a bound"
    res = {"contract": name[1:], "status": status, "reason": reason, "obligations": [], "paths": eng.paths, "insts": eng.insts,
           "queries": eng.queries, "solver_s": round(eng.solver_s, 3), "wall_s": round(time.time() - t0, 3),
           "functions": sorted(short_name(x) for x in eng.fns), "functions_raw": sorted(eng.fns), "assumptions": sorted(eng.assumptions), "reached": eng.reached,
           "summarised": sorted("%s:%s" % (short_name(a), b) for a, b in eng.summarised), "globals_written": sorted(set("%s in %s" % g for g in eng.gw)),
           "allocs": sorted(eng.allocs),
           "records": [(n, str(v)) for n, v in eng.records]}
    for o in eng.obl.values():
        res["obligations"].append({"label": o.label, "kind": o.kind, "vcs": o.vcs, "proved": o.proved, "status": o.status(),
                                   "failed": o.failed[:3]})
    if status == "ok":
        for l, n in eng.reached.items():
            if n == 0:
                res["obligations"].append({"label": "reachable: " + l, "kind": "vacuity", "vcs": 1, "proved": 0, "status": "unknown", "failed": []})
        if eng.paths == 0 and not any(o["status"] == "failed" for o in res["obligations"]):
            res["status"], res["reason"] = "undecided", "vacuous: no path completes"
    bad = [o for o in res["obligations"] if o["status"] == "failed"]
    unk = [o for o in res["obligations"] if o["status"] == "unknown"]
    if bad:
        res["verdict"] = "failed"
    elif res["status"] != "ok" or unk:
        res["verdict"] = "undecided"
        if not res["reason"]:
            res["reason"] = "not discharged: " + "; ".join(o["label"] for o in unk)
    else:
        res["verdict"] = "proved"
    return res


def cross_check(sink, budget=120.0, per=10.0):
    """re-discharge the collected verification conditions with cvc5 (a second, independent solver)"""
    import subprocess
    t0 = time.time()
    n = agree = unknown = disagree = 0
    seen = set()
    for label, pc, cond, r in sink:
        if time.time() - t0 > budget:
            break
        s = z3.Solver()
        s.add(*real.facts()) if False else None
        s.add(*pc)
        s.add(z3.Not(cond))
        txt = "(set-logic ALL)\n" + s.to_smt2()
        h = hash(txt)
        if h in seen:
            continue
        seen.add(h)
        try:
            o = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % int(per * 1000)], input=txt, capture_output=True, text=True, timeout=per + 5).stdout.strip()
        except Exception:
            o = "unknown"
        n += 1
        if o == r:
            agree += 1
        elif o in ("sat", "unsat") and r in ("sat", "unsat"):
            disagree += 1
        else:
            unknown += 1
    return {"solver": "cvc5", "vcs_rechecked": n, "agree": agree, "unknown": unknown, "disagree": disagree, "collected": len(sink), "s": round(time.time() - t0, 1)}


if __name__ == "__main__":
    m = Module(open(sys.argv[1]).read())
    pre = "@vc_" + sys.argv[2]
    for n in sorted(m.fsrc):
        if n.startswith(pre):
            r = prove(m, n)
            print("%-28s %-10s obl=%d vcs=%d paths=%d insts=%d q=%d %.1fs  %s" % (r["contract"], r["verdict"], len(r["obligations"]), sum(o["vcs"] for o in r["obligations"]), r["paths"], r["insts"], r["queries"], r["wall_s"], r["reason"]))
            if "-v" in sys.argv:
                for o in r["obligations"]:
                    print("    ", o["status"], o["vcs"], o["proved"], o["kind"], o["label"])
                    for x in o["failed"][:1]:
                        print("        ", x)
            elif r["verdict"] == "failed":
                for o in r["obligations"]:
                    if o["status"] == "failed":
                        print("    ", o["label"], str(o["failed"][0])[:(20000 if "-vv" in sys.argv else 300)])
            if "-s" in sys.argv:
                print("   summarised", r["summarised"])
