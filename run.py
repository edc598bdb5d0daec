#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decide one property on /repo's current tree.

exit 0: every obligation discharged (or, where the verifier could not reach the changed code, the labelled bounded stand-in
found nothing); exit 1 with a VIOLATION line otherwise."""
import json
import os
import re
import struct
import shutil
import subprocess
import sys
import tempfile
import time
VT = "/opt/veriftools/pyvenv/bin/python3"
if not os.environ.get("VF_IN_VENV"):
    os.environ["VF_IN_VENV"] = "1"
    for cand in ("python3-vt", VT):
        p = shutil.which(cand)
        if p:
            os.execv(p, [p] + sys.argv)
from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, ThreadPoolExecutor, wait
import threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
REPO = os.environ.get("VF_REPO", "/repo")
CXXFLAGS = ["-std=gnu++17", "-w", "-UNDEBUG", "-I" + REPO + "/include", "-I" + HERE + "/specs"]
CLANG = shutil.which("clang++-18") or shutil.which("clang++")

_mods = {}


def worker(ll, name, limits, timeout, want_vcs, smtdir):
    import vc
    from llparse import Module
    m = _mods.get(ll)
    if m is None:
        m = _mods[ll] = Module(open(ll).read())
    sink = [] if want_vcs else None
    r = vc.prove(m, name, limits, timeout, sink)
    if sink is not None:
        r["cross"] = vc.cross_check(sink)
    return r


class Check:
    def __init__(self, prop, tier):
        import props
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.cfg = props.PROPS[prop]
        self.repo, self.here, self.cxxflags = REPO, HERE, CXXFLAGS
        self.work = tempfile.mkdtemp(prefix="vf_%s_" % prop)
        self.t0 = time.time()
        self.results, self.violations, self.bounded, self.extra = [], [], [], []
        self.known = self.load_known()
        self.known_hit = []
        self.native = {}
        self.validation, self.companions_done, self.lock, self.build_lock, self.standin_secs = [], set(), threading.Lock(), threading.Lock(), 10
        self.errors = []
        self.dictionary = set()      # constants of the code under check: sizes worth trying in native searches
        self.magnitudes = set()      # likewise, floating-point constants far from 1
        self.replays = os.path.join(HERE, "evidence", "replay")
        os.makedirs(self.replays, exist_ok=True)
        for f in os.listdir(self.replays):
            if f.startswith(prop + "-"):
                os.unlink(os.path.join(self.replays, f))

    def load_known(self):
        out = []
        p = os.path.join(HERE, "known-findings.txt")
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"finding: property=(\S+) contract=(\S+) label=(.*?) :: (.*)$", l.strip())
                if m:
                    out.append(m.groups())
        return out

    # ---------------------------------------------------------------- build
    def compile_ir(self, spec, flags):
        out = os.path.join(self.work, os.path.basename(spec).replace(".cpp", "") + "_%d.ll" % abs(hash(tuple(flags))))
        if os.path.exists(out):
            return out, ""
        cmd = [CLANG] + CXXFLAGS + ["-O0", "-Wno-c++11-narrowing", "-Xclang", "-disable-O0-optnone", "-ffp-contract=off", "-fno-math-errno", "-fclang-abi-compat=17", "-S", "-emit-llvm",
                                     "-gline-tables-only"] + flags + [os.path.join(HERE, "specs", spec), "-o", out]
        r = subprocess.run(cmd, capture_output=True, text=True, cwd=self.work)
        if r.returncode != 0:
            return None, r.stderr[-3000:]
        return out, ""

    def build_locked(self, spec, flags):
        with self.build_lock:
            return self.build_native(spec, flags)

    def build_native(self, spec, flags):
        k = (spec, tuple(flags))
        if k not in self.native:
            out = os.path.join(self.work, os.path.basename(spec).replace(".cpp", "") + "_n%d" % len(self.native))
            cmd = ["g++"] + CXXFLAGS + ["-g1", "-O1", "-ffp-contract=off", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                                         "-fno-sanitize=pointer-overflow,vptr,float-divide-by-zero,nonnull-attribute", "-rdynamic"] + [f for f in flags if not f.startswith("-X")] + \
                [os.path.join(HERE, "engine", "native.cpp"), os.path.join(HERE, "specs", spec), "-ldl", "-o", out]
            r = subprocess.run(cmd, capture_output=True, text=True)
            self.native[k] = (out if r.returncode == 0 else None, r.stderr[-2000:])
        return self.native[k]

    def run_native(self, exe, args, timeout=120):
        env = dict(os.environ, VF_DICT=" ".join(map(str, sorted(self.dictionary))), VF_MAGN=" ".join(map(repr, sorted(self.magnitudes)[:64])), ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=0")
        try:
            r = subprocess.run([exe] + args, capture_output=True, text=True, timeout=timeout, env=env, cwd=self.work, errors="replace")
        except subprocess.TimeoutExpired:
            return "timeout", ""
        out = r.stdout + "\n" + r.stderr
        if "VIOLATED" in r.stdout or "CRASH" in r.stdout or "runtime error" in r.stderr or "AddressSanitizer" in r.stderr:
            return "violated", out
        if r.returncode not in (0, 1):
            return "violated" if r.returncode < 0 or r.returncode == 3 else "error", out
        return "clean", out

    # ---------------------------------------------------------------- verdicts
    def known_match(self, contract, label):
        for p, c, l, what in self.known:
            if p == self.prop and c == contract and (l == "*" or l == label):
                return what
        return None

    def violate(self, contract, label, confirmed, body):
        what = self.known_match(contract, label)
        if what:
            if what not in self.known_hit:
                self.known_hit.append(what)
            return
        path = os.path.join(self.replays, "%s-%s.json" % (self.prop, contract))
        if any(v[0] == contract for v in self.violations):
            return
        body.update({"property": self.prop, "contract": contract, "obligation": label, "confirmed_natively": confirmed})
        with open(path, "w") as f:
            json.dump(body, f, indent=1, default=str)
        self.violations.append((contract, label, confirmed, path))

    def model_file(self, model):
        p = os.path.join(self.work, "model.txt")
        with open(p, "w") as f:
            for n, d in model.items():
                if d["kind"] == "mem":
                    f.write("%s mem %d %s\n" % (n, d["leaf"], " ".join(map(str, d["value"]))))
                else:
                    f.write("%s %s %s\n" % (n, d["kind"], d["value"]))
        return p

    def search(self, exe, contract, secs, seed=None):
        """native random search of one contract; returns (verdict, output, trials, effective)"""
        res, out = self.run_native(exe, [contract, "search", str(self.seed if seed is None else seed), "100000000", str(secs)], timeout=secs + 120)
        m = re.search(r"trials (\d+) effective (\d+)", out)
        return res, out, int(m.group(1)) if m else 0, int(m.group(2)) if m else 0

    def handle_failed(self, r, spec, flags):
        """a contract with a counter-model: replay it, then search for a failing input near it"""
        r["handled"] = True
        with self.build_lock:
            exe, err = self.build_native(spec, flags)
        failed = [o for o in r["obligations"] if o["status"] == "failed"]
        real_fail = [o for o in failed if o["kind"] != "inv"]
        if not real_fail:
            # only a representation invariant of the proof failed: undecided, not a violation
            r["reason"] = "proof-internal invariant not re-established: " + "; ".join(o["label"] for o in failed)
            r["verdict"] = "undecided"
            return self.handle_undecided(r, spec, flags)
        for o in real_fail:
            for f in o["failed"]:
                if not f.get("model") or exe is None:
                    continue
                mf = self.model_file(f["model"])
                res, out = self.run_native(exe, [r["contract"], "replay", mf])
                if res == "violated":
                    self.violate(r["contract"], o["label"], True, {"kind": o["kind"], "inputs": f["model"], "verifier_where": f["where"],
                                                                   "native_output": out[-4000:], "flags": flags, "spec": spec,
                                                                   "how": "counterexample of the verifier, replayed on the real code compiled with g++ and sanitizers"})
                    return
        summ = bool(r.get("summarised"))
        if exe is not None:
            res, out, n, eff = self.search(exe, r["contract"], 30 if summ else 15)
            if res == "violated":
                o = real_fail[0]
                self.violate(r["contract"], o["label"], True, {"kind": o["kind"], "native_output": out[-6000:], "verifier": real_fail[:3], "flags": flags, "spec": spec,
                                                               "how": "obligation failed in the verifier; failing input found by search on the real code"})
                return
            if summ:
                # the counter-model is one of an over-approximating loop summary: it refutes the summary, not the code
                r["verdict"] = "undecided"
                r["reason"] = "loop summary too weak for: " + "; ".join(o["label"] for o in real_fail)[:300]
                self.bounded.append({"contract": r["contract"], "why": r["reason"], "method": "native random search of the same contract (bounded, not proved)",
                                     "seconds": 30, "result": res, "trials": n, "effective": eff})
                self.search_companions(exe, spec, flags)
                return
        o = real_fail[0]
        self.violate(r["contract"], o["label"], False, {"kind": o["kind"], "verifier": real_fail[:5], "native_build_error": err, "flags": flags, "spec": spec,
                                                        "how": "the verifier refutes the obligation; no native input reproduces it"})

    def handle_undecided(self, r, spec, flags):
        """bounded stand-in: search the same contract on the real code"""
        r["handled"] = True
        with self.build_lock:
            exe, err = self.build_native(spec, flags)
        secs = self.standin_secs
        b = {"contract": r["contract"], "why": r["reason"], "method": "native random search of the same contract (bounded, not proved)", "seconds": secs}
        if exe is None:
            b["error"] = err
            self.bounded.append(b)
            return
        res, out, n, eff = self.search(exe, r["contract"], secs)
        b.update(result=res, trials=n, effective=eff)
        self.bounded.append(b)
        if res == "violated":
            lab = re.search(r"VIOLATED (.*)", out)
            self.violate(r["contract"], lab.group(1) if lab else "sanitizer or assertion failure", True,
                         {"native_output": out[-6000:], "flags": flags, "spec": spec, "how": "bounded stand-in: " + r["reason"]})
            return
        self.search_companions(exe, spec, flags)

    def search_companions(self, exe, spec, flags):
        """native-only contracts (whole histories) of this property, searched once when something could not be proved"""
        k = (spec, tuple(flags))
        with self.lock:
            if k in self.companions_done:
                return
            self.companions_done.add(k)
        for n in self.native_only(spec):
            self.native_search(exe, n, spec, flags, max(self.standin_secs, 10), "bounded companion history search")

    def native_only(self, spec):
        text = open(os.path.join(HERE, "specs", spec)).read()
        return sorted(set(re.findall(r"\b(vn_%s_\w+)\b" % self.prop, text)))

    def native_search(self, exe, name, spec, flags, secs, how):
        res, out, n, eff = self.search(exe, name, secs)
        self.validation.append({"contract": name, "method": how, "seconds": secs, "result": res, "trials": n, "effective": eff})
        if res == "violated":
            lab = re.search(r"VIOLATED (.*)", out)
            self.violate(name, lab.group(1) if lab else "sanitizer or assertion failure", True,
                         {"native_output": out[-6000:], "flags": flags, "spec": spec, "how": how})

    def native_standin(self, spec, prefixes, flags):
        """no IR: every contract is searched on the g++ build"""
        exe, err = self.build_locked(spec, list(flags))
        if exe is None:
            self.errors.append("native build failed: " + err[-300:])
            return {"error": "native build failed"}
        sym = subprocess.run(["nm", exe], capture_output=True, text=True).stdout
        names = [n for n in sorted(set(re.findall(r" T (vc_\w+)$", sym, re.M))) if any(n.startswith("vc_" + p) for p in (prefixes if isinstance(prefixes, list) else [prefixes]))]
        names += self.native_only(spec)
        with ThreadPoolExecutor(max_workers=8) as tp:
            list(tp.map(lambda n: self.native_search(exe, n, spec, list(flags), min(10, max(1, 1280 // max(1, len(names)))), "bounded stand-in: no IR for the verifier"), names))
        return {"result": "violated" if self.violations else "clean", "searched": len(names)}

    # ---------------------------------------------------------------- main
    @staticmethod
    def blank(j):
        return {"contract": j[1][1:], "verdict": "undecided", "reason": "", "obligations": [], "paths": 0, "insts": 0, "queries": 0, "solver_s": 0, "wall_s": 0,
                "functions": [], "functions_raw": [], "assumptions": [], "reached": {}, "summarised": [], "globals_written": [], "allocs": []}

    def run(self):
        import props
        jobs = []
        for ent in self.cfg["specs"]:
            if ent.get("tier") == "thorough" and self.tier != "thorough":
                continue
            spec, prefixes, flags = ent["spec"], ent["prefix"], ent.get("flags", [])
            ll, err = self.compile_ir(spec, flags)
            if ll is None:
                r = subprocess.run(["g++"] + CXXFLAGS + ["-fsyntax-only"] + [f for f in flags if not f.startswith("-X")] + [os.path.join(HERE, "specs", spec)], capture_output=True, text=True)
                if r.returncode != 0:
                    self.violate("compile_" + os.path.basename(spec).replace(".cpp", ""), "the public API the contract calls compiles", False,
                                 {"kind": "compile", "compiler": r.stderr[-4000:], "clang": err, "flags": flags})
                else:
                    self.errors.append("IR extraction failed: " + err[-400:])
                    self.bounded.append({"contract": spec, "why": "clang cannot compile the contract: " + err[-300:], **self.native_standin(spec, prefixes, flags)})
                continue
            text = open(ll).read()
            for body in re.findall(r"^define [^@]*@\w*8embedded\w*\(.*?^}", text, re.M | re.S):
                for c in re.findall(r"\bi(?:16|32|64) (?:[^,\n]*, )?(\d{2,7})\b", body):
                    if 20 < int(c) <= 1 << 20:
                        self.dictionary.add(int(c))
                for c in re.findall(r"\b(?:float|double) (?:[^,\n]*, )?(0x[0-9A-F]{16}\b|-?\d\.\d+e[+-]\d+)", body):
                    v = abs(struct.unpack(">d", bytes.fromhex(c[2:]))[0] if c.startswith("0x") else float(c))
                    if 1e-300 < v < 1e-2 or 1e2 < v < 1e12:
                        self.magnitudes.add(v)
            names = sorted(set(re.findall(r"^define [^@]*@(vc_\w+)\(", text, re.M)))
            pre = prefixes if isinstance(prefixes, list) else [prefixes]
            sel = [n for n in names if any(n.startswith("vc_" + p) for p in pre)]
            if self.tier == "thorough":
                sel += [n for n in names if any(n.startswith("vct_" + p) for p in pre)]
            if not sel:
                self.errors.append("no contract in %s for %s" % (spec, prefixes))
            for n in sel:
                jobs.append((ll, "@" + n, spec, flags, ent))
        limits = {"secs": 240 if self.tier == "quick" else 700}
        timeout = 20000 if self.tier == "quick" else 90000
        cross = self.tier == "thorough"
        deadline = time.time() + self.cfg.get("prove_s", {}).get(self.tier, 360 if self.tier == "quick" else 5400)
        handlers = ThreadPoolExecutor(max_workers=8)
        pending_h, stopped = [], False
        # contracts without real numbers are also run on the g++ build, briefly: the compiler that builds the tests may read the code differently
        brief = sorted({(j[2], tuple(j[3])) for j in jobs if j[2] not in ("filter.cpp", "cmath.cpp", "bessel.cpp")}) if self.tier == "quick" else []
        for k in brief:
            handlers.submit(self.build_locked, k[0], list(k[1]))
        if jobs:
            ex = ProcessPoolExecutor(max_workers=min(8, len(jobs)))
            futs = {ex.submit(worker, j[0], j[1], dict(limits, **j[4].get("limits", {})), timeout, cross and j[4].get("cross", True), self.work): j for j in jobs}
            left = set(futs)
            while left:
                done, left = wait(left, timeout=1.0, return_when=FIRST_COMPLETED)
                for fu in done:
                    j = futs[fu]
                    try:
                        r = fu.result()
                    except Exception as x:
                        r = dict(self.blank(j), reason="worker: %r" % (x,))
                    self.results.append((r, j))
                    if r["verdict"] == "failed":
                        pending_h.append(handlers.submit(self.handle_failed, r, j[2], j[3]))
                stopped = any(v[2] for v in self.violations)
                if left and (stopped or time.time() > deadline):
                    for fu in left:
                        r = dict(self.blank(futs[fu]), reason="not attempted: a violation was already confirmed" if stopped else "proof time budget used up")
                        self.results.append((r, futs[fu]))
                    for p in list(ex._processes.values()):
                        p.kill()
                    break
            ex.shutdown(wait=False, cancel_futures=True)
        self.results.sort(key=lambda x: x[0]["contract"])
        for h in pending_h:
            h.result()
        todo = [(r, j) for r, j in self.results if r["verdict"] == "undecided" and not r.get("handled")]
        if any(v[2] for v in self.violations):
            todo = []
        for k in sorted({(j[2], tuple(j[3])) for r, j in todo}):
            self.build_native(k[0], list(k[1]))
        budget = 160 if self.tier == "quick" else 1200      # wall seconds for all stand-ins together, eight at a time
        self.standin_secs = max(2, min(10 if self.tier == "quick" else 60, budget * 8 // max(1, len(todo))))
        list(handlers.map(lambda x: self.handle_undecided(x[0], x[1][2], x[1][3]), todo))
        handlers.shutdown()
        todo = [(r, j) for r, j in self.results if r["verdict"] != "proved"]
        if brief and not self.violations:
            val = []
            for k in brief:
                exe, err = self.build_locked(k[0], list(k[1]))
                if exe is None:
                    self.errors.append("native build failed: " + err[-300:])
                    continue
                names = [r["contract"] for r, j in self.results if (j[2], tuple(j[3])) == k and r["verdict"] == "proved"]
                val += [(exe, n, k[0], list(k[1]), min(1.0, 120.0 / len(names))) for n in names]
            with ThreadPoolExecutor(max_workers=8) as tp:
                list(tp.map(lambda v: self.native_search(*v, "native run of the contract on the compiled code (sampled)"), val))
        if not self.violations:
            # what the verifier's exact reals leave out (rounding, overflow) is sampled on the real binary: bounded, never counted as proved
            val = []
            for spec, names in self.cfg.get("always", {}).items():
                exe, err = self.build_locked(spec, [])
                if exe is None:
                    self.errors.append("native build failed: " + err[-300:])
                    continue
                val += [(exe, n, spec, [], 6 if self.tier == "quick" else 60) for n in names if not any(v["contract"] == n for v in self.validation)]
            with ThreadPoolExecutor(max_workers=8) as tp:
                list(tp.map(lambda v: self.native_search(*v, "rounding, sampled on the compiled code"), val))
        if self.tier == "thorough":
            # differential validation of the verifier's model: every contract and every history is also run on the real binary
            done = {r["contract"] for r, j in todo}
            val = []
            for k in sorted({(j[2], tuple(j[3])) for r, j in self.results}):
                exe, err = self.build_native(k[0], list(k[1]))
                if exe is None:
                    self.errors.append("native build failed: " + err[-300:])
                    continue
                names = [r["contract"] for r, j in self.results if (j[2], tuple(j[3])) == k and r["contract"] not in done]
                val += [(exe, n, k[0], list(k[1]), 3) for n in names] + [(exe, n, k[0], list(k[1]), 45) for n in self.native_only(k[0])]
            with ThreadPoolExecutor(max_workers=8) as tp:
                list(tp.map(lambda v: self.native_search(*v, "native validation of the contract on the compiled code (sampled)"), val))
        for fn in self.cfg.get("extra", []):
            try:
                fn(self)
            except Exception as x:
                self.errors.append("back end: %r" % (x,))
                self.bounded.append({"contract": getattr(fn, "__name__", "extra"), "why": "back end: %r" % (x,)})
        return self.finish()

    def add_obligations(self, name, obls, backend, details=None):
        """obligations decided by an extra (non-IR) back end: list of (label, ok, info)"""
        self.extra.append({"name": name, "backend": backend, "obligations": [(l, bool(ok)) for l, ok, _ in obls], "details": details or {}})

    @staticmethod
    def compact(e):
        """an extra back end's report for the evidence file: counts, what failed, and a sample of the labels"""
        o = e["obligations"]
        return dict(e, obligations=len(o), discharged=sum(1 for l, ok in o if ok), failed=[l for l, ok in o if not ok][:100],
                    sample=[l for l, ok in o if ok][:: max(1, len(o) // 100)][:100])

    def finish(self):
        obl = dis = vcs = 0
        by = {}
        fns, raw, assume, summ = set(), set(), set(), set()
        solver = 0.0
        listing, undischarged = [], []
        for r, j in self.results:
            solver += r["solver_s"]
            fns.update(r["functions"])
            assume.update(r["assumptions"])
            summ.update(r["summarised"])
            for o in r["obligations"]:
                obl += 1
                vcs += o["vcs"]
                if o["status"] == "proved" and r["verdict"] != "undecided":
                    dis += 1
                else:
                    undischarged.append("%s: %s [%s]" % (r["contract"], o["label"], o["status"]))
            listing.append({"contract": r["contract"], "verdict": r["verdict"], "obligations": len(r["obligations"]), "vcs": sum(o["vcs"] for o in r["obligations"]),
                            "paths": r["paths"], "ir_instructions": r["insts"], "solver_s": r["solver_s"], "wall_s": r["wall_s"],
                            **({"reason": r["reason"]} if r["reason"] else {}), **({"cross_check": r["cross"]} if "cross" in r else {})})
        for e in self.extra:
            for l, ok in e["obligations"]:
                obl += 1
                dis += ok
                if not ok:
                    undischarged.append("%s: %s" % (e["name"], l))
        if obl == 0:
            self.errors.append("zero obligations generated")
        lib = sorted(f for f in fns if not f.startswith("vc"))
        sample = []
        for r, j in self.results[:3]:
            sample += ["%s / %s (%d VCs)" % (r["contract"], o["label"], o["vcs"]) for o in r["obligations"][:6]]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "proof",
              "coverage": {"obligations": obl, "discharged": dis,
                           "checker_cmd": "python3-vt /verif/run.py %s %s" % (self.prop, self.tier),
                           "trusted_base": self.cfg.get("trusted", []) + COMMON_TRUST,
                           "verification_conditions": vcs, "contracts": listing, "functions_executed": len(fns), "functions": lib[:400],
                           "loops_with_inductive_summary": sorted(summ), "undischarged": undischarged[:60], "bounded_standins": self.bounded,
                           "native_validation": self.validation, "extra_backends": [self.compact(e) for e in self.extra], "samples": sample, "solver_s": round(solver, 2), "back_end": "z3 (python bindings %s)" % _z3v()},
              "assumptions": sorted(assume) + self.cfg.get("assumptions", []),
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        if self.errors:
            ev["coverage"]["errors"] = self.errors
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.work, ignore_errors=True)
        for w in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        for c, l, conf, path in sorted(self.violations, key=lambda v: not v[2]):
            print("  failed obligation: %s: %s" % (c, l))
            print("VIOLATION property=%s replay=%s%s" % (self.prop, path, "" if conf else " no-failing-input-found"))
        for b in self.bounded:
            print("UNDECIDED %s: %s -> bounded stand-in: %s" % (b["contract"], b["why"][:300], b.get("result", b.get("error", ""))[:300]))
        for e in self.errors:
            print("ERROR " + e)
        print("%s %s: %d contracts, %d obligations (%d VCs), %d discharged, %d bounded, %d violations, %.1fs" %
              (self.prop, self.tier, len(self.results), obl, vcs, dis, len(self.bounded), len(self.violations), time.time() - self.t0))
        if self.violations:
            return 1
        if self.errors:
            return 2 if obl == 0 and not self.bounded else 0
        return 0


COMMON_TRUST = [
    "clang 18 front end (C++ to LLVM IR at -O0); that g++'s object code means the same as the IR is not proved",
    "the verifier in /verif/engine (IR parser, symbolic executor, loop summaries, memory model)",
    "z3 (unsat answers); the thorough tier re-discharges a sample with cvc5",
    "libstdc++ headers are executed as code, not trusted; libc/libm functions are modelled as in engine/intrinsics.py",
]


def _z3v():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = Check(prop, tier)
    try:
        rc = c.run()
    finally:
        shutil.rmtree(c.work, ignore_errors=True)
    sys.exit(rc)
