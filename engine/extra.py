"""Arithmetic and whole-program back ends that discharge obligations over what the contracts record."""
import os
import re
import struct
from concurrent.futures import ProcessPoolExecutor
from fractions import Fraction

TOL_D = 4e-15      # the poles have magnitude 0.5 .. 1.4; the committed table is within 2.5e-15
TOL_F = 2.4e-7     # two units in the last place of a float near 1


def _poles(records, f=""):
    def num(v):     # back to the machine number the constant was (llparse.hexfp reads a few as simpler fractions)
        v = float(Fraction(v))
        return Fraction(struct.unpack("<f", struct.pack("<f", v))[0] if f else v)
    re_ = [num(v) for n, v in records if n == f + "re"]
    im_ = [num(v) for n, v in records if n == f + "im"]
    return list(zip(re_, im_))


def _s06_one(n, records):
    import bessel
    out = []
    d, s = _poles(records), _poles(records, "f")
    out.append(("every pole lies in the open left half-plane", all(r < 0 for r, i in d + s), ""))
    for ps, what in ((d, "double"), (s, "single")):
        left = list(ps)
        ok = True
        for r, i in ps:
            if (r, i) in left and i != 0:
                left.remove((r, i))
                if (r, -i) in left:
                    left.remove((r, -i))
                else:
                    ok = False
        reals = [p for p in left if p[1] == 0]
        ok = ok and len(reals) == len(left) and len(left) == n % 2
        out.append(("the poles form exact conjugate pairs (%s precision)" % what, ok, ""))
    for ps, tol, what in ((d, TOL_D, "double"), (s, TOL_F, "single")):
        ok, worst, why = bessel.certify(n, ps) if len(ps) == n else (False, float("inf"), "%d poles" % len(ps))
        out.append(("each pole is within %s precision of a distinct root of the normalised reverse Bessel polynomial, and all roots are met" % what, ok and worst <= tol,
                    "largest distance %.3g; %s" % (worst, why)))
    return out


def s06(chk):
    todo = []
    for r, j in chk.results:
        n = int(r["contract"].rsplit("_", 1)[1])
        todo.append((n, r, j))

    def native(r, j):
        exe, err = chk.build_native(j[2], list(j[3]))
        if exe is None:
            return None, err
        mf = chk.model_file({})
        res, out = chk.run_native(exe, [r["contract"], "replay", mf])
        return [(m.group(1), str(Fraction(float.fromhex(m.group(2))))) for m in re.finditer(r"^RECORD (\S+) (\S+)", out, re.M)
                if re.match(r"-?0x", m.group(2))], out

    with ProcessPoolExecutor(8) as ex:
        jobs = []
        for n, r, j in todo:
            recs = r.get("records") or []
            if r["verdict"] == "proved" and recs:
                jobs.append((n, r, j, ex.submit(_s06_one, n, recs), False))
            else:
                if any(v[0] == r["contract"] for v in chk.violations):
                    continue
                recs, _ = native(r, j)
                if recs:
                    # the poles are constants: running the compiled code shows them all
                    jobs.append((n, r, j, ex.submit(_s06_one, n, recs), True))
        for n, r, j, fu, nat in jobs:
            obls = fu.result()
            name = "S06_%d" % n
            bad = [(l, i) for l, ok, i in obls if not ok]
            if not nat:
                chk.add_obligations(name, obls, "exact ball arithmetic over the recorded poles (engine/bessel.py)", {"order": n, "distance": [i for _, _, i in obls if i]})
            else:
                chk.bounded.append({"contract": r["contract"], "why": r["reason"], "method": "poles read from the compiled code, certified exactly",
                                    "result": "clean" if not bad else "violated"})
            if bad:
                confirmed, out = nat, ""
                if not nat:
                    recs, out = native(r, j)
                    confirmed = bool(recs) and any(not ok for _, ok, _ in _s06_one(n, recs))
                chk.violate(r["contract"], bad[0][0], confirmed, {"failed": bad, "order": n, "poles": [(float(a), float(b)) for a, b in _poles(r.get("records") or [])],
                                                                  "native_output": (out or "")[-3000:], "spec": j[2], "flags": list(j[3]),
                                                                  "how": "the recorded poles fail exact certification"})


R01_SPECS = ["varint.cpp", "cba.cpp", "cba_life.cpp", "function.cpp", "misc.cpp", "closure.cpp", "cmath.cpp", "filter.cpp", "bessel.cpp", "debug.cpp"]


def _r01_one(args):
    ll, inc = args
    import frame
    f = frame.Frames(open(ll).read(), inc)
    names = re.findall(r"^define [^@]*@(vct?_\w+)\(", open(ll).read(), re.M)
    calls = {}      # contract -> functions it reaches
    res = f.check()
    edges = {n: set(re.findall(r"@([-\w.$]+)", b)) & set(f.fn) for n, (_, b) in f.fn.items()}
    if any(v[1] for v in res.values()):
        for c in names:
            seen, todo = set(), [c]
            while todo:
                x = todo.pop()
                if x not in seen:
                    seen.add(x)
                    todo += edges.get(x, ())
            calls[c] = seen
    return [(n, k, bad, unk, f.fn[n][0]) for n, (k, bad, unk) in res.items()], calls


def r01(chk):
    import os
    import subprocess
    inc = os.path.join(chk.repo, "include")
    jobs = []
    for s in R01_SPECS:
        ll, err = chk.compile_ir(s, [])
        if ll is None:
            r = subprocess.run(["g++"] + chk.cxxflags + ["-fsyntax-only", os.path.join(chk.here, "specs", s)], capture_output=True, text=True)
            chk.errors.append("IR extraction failed for %s: %s" % (s, err[-300:]))
            chk.bounded.append({"contract": s, "why": "cannot be compiled: " + (r.stderr or err)[-300:]})
        else:
            jobs.append((s, ll))
    with ProcessPoolExecutor(8) as ex:
        results = list(ex.map(_r01_one, [(ll, inc) for s, ll in jobs]))
    by = {}
    fail, unknown = [], {}
    for (s, ll), (rows, calls) in zip(jobs, results):
        for n, kind, bad, unk, (nm, fl, ln) in rows:
            where = "%s:%d %s" % (fl.replace(inc + "/", ""), ln, nm) if kind == "library" else "libstdc++ %s" % nm
            e = by.setdefault(where, [0, True, True, True])
            e[0] += 1
            if any(b[0] == "global" for b in bad):
                e[1] = False
            if any(b[0] == "alloc" for b in bad):
                e[2] = False
            if unk:
                e[3] = False
                unknown.setdefault(where, set()).update(unk)
            if bad:
                fail.append((s, n, where, bad, [c for c, fs in calls.items() if n in fs]))
    obls = []
    for w in sorted(by):
        c, g, a, u = by[w]
        obls.append((w + ": touches no mutable global or static variable", g, ""))
        obls.append((w + ": allocates and frees nothing", a, ""))
        if u or not (g and a):
            obls.append((w + ": every callee has a frame", u, ""))
    chk.add_obligations("R01_frames", obls, "frame conditions over the IR of every contract (engine/frame.py)",
                        {"functions": len(by), "instances": sum(e[0] for e in by.values()), "library_functions": sorted(w for w in by if not w.startswith("libstdc++"))})
    for w, u in sorted(unknown.items()):
        chk.bounded.append({"contract": "R01_frames", "why": "%s calls externals of unknown frame: %s" % (w, ", ".join(sorted(u))), "method": "none"})
    if not fail:
        return
    # confirm on the compiled code: does the function allocate, does the variable change?
    confirmed, out = None, ""
    for s in sorted({f[0] for f in fail}):
        exe = os.path.join(chk.work, "watch_" + s.replace(".cpp", ""))
        r = subprocess.run(["g++"] + chk.cxxflags + ["-DVF_WATCH", "-O0", "-rdynamic", os.path.join(chk.here, "engine", "native.cpp"),
                            os.path.join(chk.here, "specs", s), "-ldl", "-o", exe], capture_output=True, text=True)
        if r.returncode:
            out += r.stderr[-500:]
            continue
        mine = [f for f in fail if f[0] == s]
        watch = sorted({"a:" + f[1] for f in mine if any(b[0] == "alloc" for b in f[3])} | {"g:" + b[2] for f in mine for b in f[3] if b[0] == "global"})
        watch += ["g:_ZGV" + w[4:] for w in watch if w.startswith("g:_ZZ")]
        for c in sorted({c for f in mine for c in f[4]})[:60]:
            res, o = chk.run_native(exe, [c, "watch", str(chk.seed), "1"] + watch[:200], timeout=30)
            if res == "violated":
                confirmed, out = c, o
                break
        if confirmed:
            break
    f = fail[0]
    chk.violate("R01_frames", "%s: %s" % (f[2], f[3][0][1]), confirmed is not None,
                {"kind": "frame", "functions": [{"function": x[2], "symbol": x[1], "problems": [b[1] for b in x[3]]} for x in fail[:20]],
                 "witness_contract": confirmed, "native_output": out[-3000:],
                 "how": "the function's frame fails; the effect is observed on the compiled code while running the witness contract" if confirmed
                 else "the function's frame fails; no run of the contracts shows the effect"})
