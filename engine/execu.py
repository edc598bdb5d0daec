"""Symbolic executor for LLVM IR: generates and discharges the verification conditions of one contract function.

Every path through the contract and the real code below it is executed with symbolic inputs.  Loops whose trip count is
not bounded by operand width are replaced by an inductively checked summary (see loops.py).  Each obligation is proved
on each path that reaches it."""
import re
import sys
import time
from fractions import Fraction as Fr
import z3
import lin
from lin import Lin, AND, OR, NOT, toz
import real
from real import R
from llparse import Unsupported, Ty, PTR, DOUBLE, int_ty

sys.setrecursionlimit(10000)
TWO = {w: 1 << w for w in (1, 8, 16, 32, 64, 128)}


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Bytes:
    """raw bytes travelling in a register (two floats passed as a double)"""
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return "&%s+%r" % (self.obj, self.off)


NULL = Ptr(None, 0)


class B2I:
    """an integer 0/1 made from a symbolic boolean"""
    __slots__ = ("b", "w")

    def __init__(self, b, w):
        self.b, self.w = b, w


class Agg:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = list(v)


class Split(Exception):
    def __init__(self, alts, feasible=False):
        self.alts, self.feasible = alts, feasible


class PathEnd(Exception):
    pass


class NeedSummary(Exception):
    def __init__(self, fn, header):
        self.fn, self.header = fn, header


class GiveUp(Exception):
    pass


# ---------------------------------------------------------------- memory objects
class ByteObj:
    """byte addressed object, accessed at concrete offsets; entries: off -> (size, value)"""
    __slots__ = ("name", "size", "ent", "init", "const", "kind", "initbytes", "align")

    def __init__(self, name, size, init="undef", kind="stack", const=False):
        self.name, self.size, self.init, self.kind, self.const = name, size, init, kind, const
        self.ent = {}
        self.initbytes = None
        self.align = None

    def copy(self):
        o = ByteObj(self.name, self.size, self.init, self.kind, self.const)
        o.ent = dict(self.ent)
        o.initbytes = self.initbytes
        o.align = self.align
        return o


class ArrObj:
    """array of `count` leaves of `leaf` bytes with symbolic content; upd: list of updates, newest last
       ("pt", idx, val) or ("rg", lo, n, fn) with fn(idx)->value"""
    __slots__ = ("name", "count", "leaf", "upd", "kind", "const", "base")

    def __init__(self, name, count, leaf):
        self.name, self.count, self.leaf = name, count, leaf
        self.upd = []
        self.kind = "array"
        self.const = False
        self.base = z3.Function("mem!" + name, z3.IntSort(), z3.BitVecSort(8 * leaf))

    @property
    def size(self):
        return lin.scale(self.count, self.leaf)

    def copy(self):
        o = ArrObj.__new__(ArrObj)
        o.name, o.count, o.leaf, o.kind, o.const, o.base = self.name, self.count, self.leaf, self.kind, self.const, self.base
        o.upd = list(self.upd)
        return o

    def init(self, idx):
        return self.base(toz(idx))

    def read(self, idx, upto=None):
        upds = self.upd if upto is None else self.upd[:upto]
        return read_upds(upds, idx, self.init)


def vite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, (int, z3.BitVecRef)) and isinstance(b, (int, z3.BitVecRef)):
        if isinstance(a, int) and isinstance(b, int):
            raise Unsupported("ite on constants of unknown width")
        w = (a if not isinstance(a, int) else b).size()
        a = z3.BitVecVal(a, w) if isinstance(a, int) else a
        b = z3.BitVecVal(b, w) if isinstance(b, int) else b
        if a.eq(b):
            return a
        return z3.If(c, a, b)
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        return OR(AND(c, a), AND(NOT(c), b))
    raise Unsupported("ite of %r / %r" % (type(a), type(b)))


def read_upds(upds, idx, base):
    i = len(upds) - 1
    stack = []
    while i >= 0:
        u = upds[i]
        if u[0] == "pt":
            c = lin.rel("==", u[1], idx)
            if c is True:
                v = u[2]
                break
            if c is not False:
                stack.append((c, u[2]))
        elif u[0] == "fn":
            # closed form of a summarised loop: content after k iterations over the updates below
            v = u[1](idx, u[2], lambda j, below=upds[:i]: read_upds(below, j, base))
            break
        else:
            _, lo, n, fn = u
            c = AND(lin.rel("<=", lo, idx), lin.rel("<", idx, lin.add(lo, n)))
            if c is True:
                v = fn(idx)
                break
            if c is not False:
                stack.append((c, fn(idx)))
        i -= 1
    else:
        v = base(idx)
    for c, a in reversed(stack):
        v = vite(c, a, v)
    return v


class Frame:
    __slots__ = ("fn", "blk", "prev", "ip", "regs", "allocas", "call", "visits", "loops")

    def __init__(self, fn):
        self.fn, self.blk, self.prev, self.ip = fn, fn.blocks[fn.entry], None, 0
        self.regs, self.allocas, self.call = {}, [], None
        self.visits = {}
        self.loops = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.blk, f.prev, f.ip = self.fn, self.blk, self.prev, self.ip
        f.regs, f.allocas, f.call = dict(self.regs), list(self.allocas), self.call
        f.visits = dict(self.visits)
        f.loops = dict(self.loops) if self.loops else None
        return f


class State:
    def __init__(self):
        self.frames, self.objs, self.owned, self.pc = [], {}, set(), []
        self.nobj = 1
        self.exc = None            # exception in flight (Agg value) while unwinding
        self.excs = {}             # exception object id -> (typeinfo, dtor)
        self.ghost = {}            # (obj, chan) -> list of updates / base
        self.conc = {}             # key of a Lin -> concrete value assumed
        self.caught = []
        self.trace = []
        self.loopctx = []          # active loop summaries
        self.globals_written = set()
        self.pool = None           # sample points of the path (reals only)

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.objs = dict(self.objs)
        s.owned = set()
        self.owned = set()
        s.pc = list(self.pc)
        s.nobj = self.nobj
        s.exc = self.exc
        s.excs = dict(self.excs)
        s.ghost = {k: (b, list(u)) for k, (b, u) in self.ghost.items()}
        s.conc = dict(self.conc)
        s.caught = list(self.caught)
        s.trace = list(self.trace)
        s.loopctx = list(self.loopctx)
        s.globals_written = set(self.globals_written)
        s.pool = self.pool
        return s

    def wobj(self, oid):
        o = self.objs[oid]
        if oid not in self.owned:
            o = self.objs[oid] = o.copy()
            self.owned.add(oid)
        return o


class Oblig:
    def __init__(self, label, kind):
        self.label, self.kind = label, kind
        self.vcs = self.proved = 0
        self.failed = []        # dicts

    def status(self):
        if self.failed:
            return "failed" if any(f["status"] == "sat" for f in self.failed) else "unknown"
        return "proved"


class Engine:
    def __init__(self, mod, timeout=20000, limits=None, sink=None):
        self.mod = mod
        self.timeout = timeout
        self.obl = {}
        self.nondets = {}       # name -> (kind, z3 term)
        self.arrays = {}        # name -> (count, leaf, base func, cell)
        self.summarise = set()
        self.summarised = set()
        self.reached = {}
        self.assumptions = set()
        self.paths = 0
        self.insts = 0
        self.queries = 0
        self.solver_s = 0.0
        self.has_real = False
        self.div_assumed = False
        self.pool = None
        self.fns = set()
        self.fresh_n = 0
        self._shapes = {}
        self.quick = [0, 0]
        self.limits = {"unroll": 26, "paths": 20000, "insts": 6000000, "secs": 300}
        if limits:
            self.limits.update(limits)
        self.solver = None
        self.scopes = []
        self.obl_on = True
        self.typeids = {}
        self.vcs_dump = sink
        self.externs = set()
        self.gw = set()
        self.allocs = set()
        self.records = []
        self.notes = []
        self.pathlog = []
        self.summ_cmps = None
        self.cur_work, self.cur_end = [], []
        import intrinsics
        self.intr = intrinsics.table(self)

    # ------------------------------------------------------------ solver
    def _fresh_solver(self):
        s = z3.Solver()
        s.set("timeout", self.timeout)
        return s

    def check(self, pc, extra=None, timeout=None):
        """sat / unsat / unknown of pc (+ extra)"""
        self.queries += 1
        t0 = time.time()
        try:
            if self.has_real:
                s = z3.Solver()
                s.set("timeout", timeout or self.timeout)
                s.add(*real.facts())
                s.add(*pc)
                if extra is not None:
                    s.add(extra)
                r = s.check()
                self.last = s
                return str(r)
            s = self.solver
            if s is None:
                s = self.solver = self._fresh_solver()
                self.scopes = []
            k = 0
            n = min(len(self.scopes), len(pc))
            while k < n and self.scopes[k] is pc[k]:
                k += 1
            if len(self.scopes) > k:
                s.pop(len(self.scopes) - k)
                del self.scopes[k:]
            for c in pc[k:]:
                s.push()
                s.add(c)
                self.scopes.append(c)
            if extra is None:
                r = s.check()
            else:
                s.push()
                s.add(extra)
                r = s.check()
                if r == z3.sat:
                    self._model = s.model()
                s.pop()
                if r == z3.unknown:
                    s2 = z3.Solver()
                    s2.set("timeout", timeout or self.timeout)
                    s2.add(*pc)
                    s2.add(extra)
                    r = s2.check()
                    if r == z3.sat:
                        self._model = s2.model()
                self.last = None
                return str(r)
            if r == z3.sat:
                self._model = s.model()
            self.last = None
            return str(r)
        finally:
            self.solver_s += time.time() - t0

    def model(self):
        return self.last.model() if self.last is not None else self._model

    def implied(self, st, cond):
        if cond is True:
            return True
        if cond is False:
            return False
        return self.check(st.pc, NOT(cond)) == "unsat"

    def decide(self, st, cond):
        """truth of cond on this path; splits the path when both are possible"""
        if cond is True or cond is False:
            return cond
        k = ("d", cond.get_id())
        if k in st.conc:
            return st.conc[k][0]

        def setv(v):
            def fn(s):
                s.conc[k] = (v, cond)
            return fn
        to = None
        if self.has_real:
            r = self.sampled(st, cond)
            if r is not None:
                if r == "both":
                    raise Split([(cond, setv(True)), (NOT(cond), setv(False))], True)
                st.conc[k] = (r, cond)
                return r
            for v, c in ((True, NOT(cond)), (False, cond)):
                if self.infeasible_fast(st, c):
                    st.conc[k] = (v, cond)
                    return v
            to = self.limits.get("feas_ms", 1000)
        f = self.check(st.pc, NOT(cond), timeout=to)
        if f == "unsat":
            st.conc[k] = (True, cond)
            return True
        t = self.check(st.pc, cond, timeout=to)
        if t == "unsat":
            st.conc[k] = (False, cond)
            return False
        raise Split([(cond, setv(True)), (NOT(cond), setv(False))], True)

    def sampled(self, st, cond):
        """decide a branch over the reals by structural lookup and by sample points of the path condition: True, False, "both" or None"""
        if self.pool is None:
            import pool
            self.pool = pool.Pool()
            import numpy
            self.np = numpy
        n, mask, ids = st.pool or (0, self.np.ones(6000, bool), frozenset())
        if n < len(st.pc):
            new = set()
            for c in st.pc[n:]:
                new.update(x.get_id() for x in (c.children() if z3.is_and(c) else [c]))
                t = self.pool.truth(c)
                if t is not None:
                    mask = mask & t[0] if t[0].any() else mask
            ids = ids | new
            st.pool = (len(st.pc), mask, ids)
        if cond.get_id() in ids:
            return True
        nc = NOT(cond)
        if nc.get_id() in ids or any(c.get_id() == nc.get_id() or (z3.is_not(c) and c.arg(0).eq(cond)) for c in st.pc):
            return False
        t = self.pool.truth(cond)
        if t is not None and (mask & t[0]).any() and (mask & t[1]).any():
            return "both"
        return None

    def infeasible_fast(self, st, c):
        """c contradicts a simple part of the path condition: the conditions over its own atoms, or the linear ones"""
        ca = real.atoms_of(c)
        own = [x for x in st.pc if real.atoms_of(x) <= ca]
        if self.check_real(own + [c], 300) == "unsat":
            return True
        if real.linear(c):
            lin_ = [x for x in st.pc if real.linear(x)]
            if len(lin_) > len(own) and self.check_real(lin_ + [c], 300) == "unsat":
                return True
        return False

    def check_real(self, cs, ms):
        self.queries += 1
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(*cs)
        r = str(s.check())
        self.solver_s += time.time() - t0
        return r

    def quick_real(self, st, cond):
        """try a few hypotheses first: the small conditions over the obligation's own atoms (fewer hypotheses: still sound)"""
        def shape(e):
            t = self._shapes.get(e.get_id())
            if t is None:
                todo, seen, cs = [e], set(), set()
                while todo and len(seen) < 400:
                    x = todo.pop()
                    if x.get_id() in seen:
                        continue
                    seen.add(x.get_id())
                    if x.num_args() == 0:
                        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                            cs.add(x.get_id())
                    else:
                        todo.extend(x.children())
                t = self._shapes[e.get_id()] = (len(seen), cs, e)
            return t
        n, cs, _ = shape(cond)
        if not st.pc or n >= 400:
            return None
        facts = real.facts()
        picked = [c for c in st.pc if not isinstance(c, bool) and shape(c)[0] <= 24 and shape(c)[1] <= cs]
        if len(picked) == len(st.pc):
            return None
        near = [c for c in facts if shape(c)[1] <= cs]
        r = self.check_real(near + picked + [NOT(cond)], 4000)
        self.quick[0 if r == "unsat" else 1] += 1
        return r

    def assume(self, st, cond):
        if cond is True:
            return
        if cond is False:
            raise PathEnd()
        st.pc.append(cond)

    def fresh(self, base):
        self.fresh_n += 1
        return "%s!%d" % (base, self.fresh_n)

    # ------------------------------------------------------------ obligations
    def oblige(self, st, cond, label, kind):
        """record the VC pc => cond under the named obligation; afterwards cond may be used"""
        if self.obl_on == "skip":
            if cond is False and kind != "ensure":
                raise PathEnd()
            return
        o = self.obl.get(label)
        if o is None:
            o = self.obl[label] = Oblig(label, kind)
        o.vcs += 1
        if cond is True:
            o.proved += 1
            return
        if cond is False:
            r = self.check(st.pc)
            if r == "unsat":
                o.proved += 1
                raise PathEnd()
        else:
            r = self.quick_real(st, cond) if self.has_real else None
            if r != "unsat":
                r = self.check(st.pc, NOT(cond))
            if self.vcs_dump is not None and len(self.vcs_dump) < 4000:
                self.vcs_dump.append((label, list(st.pc), cond, r))
        if r == "unsat":
            o.proved += 1
            st.pc.append(cond) if kind != "ensure" else None
            return
        rec = {"status": "sat" if r == "sat" else "unknown", "where": self.where(st), "trace": list(st.trace),
               "model": None}
        if r == "sat":
            rec["model"] = self.small_model(st, cond)
        o.failed.append(rec)
        if cond is False or kind != "ensure":
            if cond is False or self.check(st.pc, cond) == "unsat":
                raise PathEnd()
            st.pc.append(cond)

    def small_model(self, st, cond):
        pc = list(st.pc)
        extra = z3.BoolVal(True) if cond is False else NOT(cond)
        if not self.has_real:
            for b in (2, 3, 4, 6, 8, 12, 20, 40, 200, 1000, 10000):
                cs = [toz(v) <= b for n, (k, v) in self.nondets.items() if k == "int"]
                if not cs:
                    break
                if self.check(pc + cs, extra) == "sat":
                    return self.extract(st, self.model())
        r = self.check(pc, extra)
        if r != "sat":
            return None
        return self.extract(st, self.model())

    def extract(self, st, m):
        out = {}
        for n, (k, v) in self.nondets.items():
            if k == "real":
                val = m.eval(v, model_completion=True)
                if z3.is_algebraic_value(val):
                    val = val.approx(60)
                out[n] = {"kind": k, "value": "%s" % float(val.numerator_as_long() / val.denominator_as_long()) if val.denominator_as_long() < 10**300 else "0"}
            elif k == "f64":
                val = m.eval(z3.fpToIEEEBV(v), model_completion=True)
                out[n] = {"kind": k, "value": str(val.as_long()) if hasattr(val, "as_long") else "0"}
            else:
                val = m.eval(toz(v) if isinstance(v, Lin) else v, model_completion=True)
                if z3.is_bool(val):
                    out[n] = {"kind": k, "value": "1" if z3.is_true(val) else "0"}
                else:
                    out[n] = {"kind": k, "value": str(val.as_long())}
        for n, (count, leaf, base) in self.arrays.items():
            c = count if isinstance(count, int) else m.eval(toz(count), model_completion=True).as_long()
            c = max(0, min(c, 4096))
            if callable(base):
                vals = [m.eval(base(z3.IntVal(i)), model_completion=True).as_long() for i in range(c)]
            else:
                vals = [m.eval(b, model_completion=True).as_long() for b in base]
            out[n] = {"kind": "mem", "leaf": leaf, "value": vals}
        return out

    def where(self, st):
        r = []
        for f in reversed(st.frames[-6:]):
            i = f.blk.insts[f.ip] if f.ip < len(f.blk.insts) else None
            r.append("%s:%s" % (f.fn.name[1:], i.line if i else "?"))
        return r

    # ------------------------------------------------------------ values
    def toint(self, v, w):
        """BV view of an integer value"""
        if isinstance(v, int):
            return z3.BitVecVal(v, w)
        if isinstance(v, z3.BitVecRef):
            return v
        if isinstance(v, B2I):
            return z3.If(v.b, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if isinstance(v, Lin):
            return z3.Int2BV(v.z(), w)
        raise Unsupported("not an integer: %r" % (v,))

    def b2i_lin(self, st, v):
        n = self.fresh("b")
        s = lin.sym(n, 0, 1)
        st.pc.append(toz(s) == z3.If(v.b, z3.IntVal(1), z3.IntVal(0)))
        return s

    def canon_u(self, st, v, w):
        """representative in [0, 2^w)"""
        if isinstance(v, int):
            return v & ((1 << w) - 1)
        lo, hi = v.interval()
        M = 1 << w
        if lo is not None and hi is not None and lo >= 0 and hi < M:
            return v
        inr = AND(lin.rel("<=", 0, v), lin.rel("<", v, M))
        if self.implied(st, inr):
            return v
        for sh in (M, -M):
            u = lin.add(v, sh)
            if self.implied(st, AND(lin.rel("<=", 0, u), lin.rel("<", u, M))):
                return u
        # split when the value may wrap once
        lo_ok = lin.rel("<=", 0, v)
        if lo_ok is not True and self.implied(st, AND(lin.rel("<=", -M, v), lin.rel("<", v, M))):
            return v if self.decide(st, lo_ok) else lin.add(v, M)
        q, r = lin.sym(self.fresh("q")), lin.sym(self.fresh("r"), 0, M - 1)
        st.pc.append(AND(toz(v) == toz(q) * M + toz(r), toz(r) >= 0, toz(r) < M))
        return r

    def canon_s(self, st, v, w):
        M, H = 1 << w, 1 << (w - 1)
        if isinstance(v, int):
            v &= M - 1
            return v - M if v >= H else v
        lo, hi = v.interval()
        if lo is not None and hi is not None and lo >= -H and hi < H:
            return v
        if self.implied(st, AND(lin.rel("<=", -H, v), lin.rel("<", v, H))):
            return v
        u = self.canon_u(st, v, w)
        if isinstance(u, int):
            return self.canon_s(st, u, w)
        return u if self.decide(st, lin.rel("<", u, H)) else lin.sub(u, M)

    def divmod_u(self, st, v, d):
        """v >= 0 mathematical, d > 0 constant"""
        if isinstance(v, int):
            return v // d, v % d
        if v.divisible(d):
            return v.div(d), 0
        rest = lin.mk({k: c for k, c in v.t.items() if c % d}, v.c % d)
        if isinstance(rest, int):
            return lin.sub(v, rest).div(d) if not isinstance(lin.sub(v, rest), int) else lin.sub(v, rest) // d, rest
        q, r = lin.sym(self.fresh("q")), lin.sym(self.fresh("r"), 0, d - 1)
        st.pc.append(AND(toz(v) == toz(q) * d + toz(r), toz(r) >= 0, toz(r) < d))
        return q, r

    # ------------------------------------------------------------ operands
    def const(self, st, op, ty):
        k = op[0]
        if k == "int":
            return op[1]
        if k == "fp":
            return op[1]
        if k == "null":
            return NULL
        if k == "undef":
            return self.undef_of(op[1])
        if k == "zero":
            return self.zero_of(op[1])
        if k == "glob":
            return self.global_ptr(st, op[1])
        if k == "agg":
            return Agg([self.const(st, o, t) for t, o in op[2]])
        if k == "gep":
            b = self.const(st, op[2], PTR)
            return self.gep(st, op[1], b, [(t, self.const(st, o, t)) for t, o in op[3]])
        if k == "cast":
            return self.cast(st, op[1], op[2], self.const(st, op[3], op[2]), op[4])
        if k == "str":
            return Agg(list(op[1]))
        raise Unsupported("constant " + k)

    def undef_of(self, ty):
        if ty.k in ("struct",):
            return Agg([self.undef_of(f) for f in ty.fields])
        if ty.k in ("array", "vector"):
            return Agg([self.undef_of(ty.elem) for _ in range(ty.n)])
        return UNDEF

    def zero_of(self, ty):
        if ty.k == "struct":
            return Agg([self.zero_of(f) for f in ty.fields])
        if ty.k in ("array", "vector"):
            return Agg([self.zero_of(ty.elem) for _ in range(ty.n)])
        if ty.k == "ptr":
            return NULL
        if ty.k in ("double", "float", "x86_fp80"):
            return Fr(0)
        return 0

    def val(self, st, op, ty):
        if op[0] == "reg":
            return st.frames[-1].regs[op[1]]
        return self.const(st, op, ty)

    def global_ptr(self, st, name):
        if self.mod.has_body(name) or name in self.mod.decls:
            return Ptr(name, 0)
        g = self.mod.global_var(name)
        if g[0] == "alias":
            return self.const(st, g[1], PTR)
        if name not in st.objs:
            ty, init, const = g
            m = re.match(r'@__(start|stop)_(\w+)$', name) if init is None else None
            if m:  # the linker's bounds of a section: here those of the one object placed in it
                inside = [n for n, src in self.mod.glob_src.items() if ', section "%s"' % m.group(2) in src]
                if len(inside) != 1:
                    raise Unsupported("section %s with %d objects" % (m.group(2), len(inside)))
                p = self.global_ptr(st, inside[0])
                return p if m.group(1) == "start" else Ptr(p.obj, p.off + st.objs[p.obj].size)
            if init is None:
                o = ByteObj(name, 1 << 20, "ext", "extern", False)
                st.objs[name] = o
                return Ptr(name, 0)
            o = ByteObj(name, ty.size(), "zero" if init[0] == "zero" else "undef", "global", const)
            st.objs[name] = o
            if init[0] != "zero" and init[0] != "undef":
                self.put(st, o, 0, ty, self.const(st, init, ty))
        return Ptr(name, 0)

    # ------------------------------------------------------------ memory
    def put(self, st, o, off, ty, v):
        """store without checks into a ByteObj we own"""
        if isinstance(v, Agg):
            if ty.k == "struct":
                for f, fo, x in zip(ty.fields, ty.offs(), v.v):
                    self.put(st, o, off + fo, f, x)
            else:
                es = ty.elem.size()
                for i, x in enumerate(v.v):
                    self.put(st, o, off + i * es, ty.elem, x)
            return
        sz = ty.size() if ty.k != "int" else (ty.w + 7) // 8
        self.clear(st, o, off, sz)
        if v is UNDEF and o.init == "undef":
            return
        if isinstance(v, Bytes):
            i = 0
            while i < sz:
                for n in (4, 1):
                    if i % n == 0:
                        part = v.b[i:i + n]
                        if n == 4 and not (all(isinstance(b, tuple) for b in part) or all(isinstance(b, int) for b in part)):
                            continue
                        try:
                            o.ent[off + i] = (n, self.join(part))
                        except Unsupported:
                            continue
                        i += n
                        break
            return
        o.ent[off] = (sz, v)

    def clear(self, st, o, off, n):
        e = o.ent
        if off in e and e[off][0] == n:
            del e[off]
            return
        if len(e) <= 64 or n > 64:
            cand = [x for x in e if x < off + n and x + e[x][0] > off]
        else:
            cand = [x for x in range(off - 16, off + n) if x in e and x + e[x][0] > off]
        for x in cand:
            sz, v = e[x]
            if x >= off and x + sz <= off + n:
                del e[x]
            else:
                bs = [self.byte_of(v, i, sz) for i in range(sz)]
                del e[x]
                for i in range(sz):
                    if not (off <= x + i < off + n):
                        e[x + i] = (1, bs[i])

    def byte_of(self, v, i, sz):
        if isinstance(v, Bytes):
            return v.b[i]
        if v is UNDEF:
            return UNDEF
        if isinstance(v, int):
            return (v >> (8 * i)) & 255
        if isinstance(v, z3.BitVecRef):
            return z3.simplify(z3.Extract(8 * i + 7, 8 * i, v)) if v.size() > 8 else v
        if isinstance(v, B2I):
            return B2I(v.b, 8) if i == 0 else 0
        if isinstance(v, Fr) and sz in (4, 8):
            import struct
            b = struct.pack("<d" if sz == 8 else "<f", float(v))
            return b[i]
        if isinstance(v, Ptr) and v.obj is None and isinstance(v.off, int):
            return (v.off >> (8 * i)) & 255
        return ("byte", v, i, sz)

    def sym_byte(self, o, off):
        nm = "%s[%d]" % (o.name, off)
        return z3.BitVec(nm, 8)

    def join_double(self, bs):
        """eight bytes loaded as a double: either a double, or the ABI's carrier for two floats"""
        if isinstance(bs, list):
            if any(b is UNDEF for b in bs) and any(b is not UNDEF for b in bs):
                return Bytes(bs)
            try:
                return self.join(bs)
            except Unsupported:
                return Bytes(bs)
        return bs

    def get(self, st, o, off, sz, raw=False):
        """value of sz bytes at off (no bounds check)"""
        e = o.ent.get(off)
        if e is not None and e[0] == sz:
            return e[1]
        bs = []
        i = 0
        while i < sz:
            p = off + i
            e = o.ent.get(p)
            if e is not None:
                for j in range(min(e[0], sz - i)):
                    bs.append(self.byte_of(e[1], j, e[0]))
                i += e[0]
                continue
            hit = None
            for back in range(1, 17):
                e = o.ent.get(p - back)
                if e is not None:
                    if e[0] > back:
                        hit = (p - back, e)
                    break
            if hit is not None:
                bs.append(self.byte_of(hit[1][1], p - hit[0], hit[1][0]))
                i += 1
                continue
            if o.init == "zero":
                bs.append(0)
            elif o.init == "sym":
                bs.append(self.sym_byte(o, p))
            elif o.init == "ext":
                return ("ext", o.name, off)
            else:
                bs.append(UNDEF)
            i += 1
        return bs if raw else self.join(bs)

    def join(self, bs):
        if len(bs) == 1:
            return bs[0]
        if all(isinstance(b, int) for b in bs):
            return sum(b << (8 * i) for i, b in enumerate(bs))
        if any(b is UNDEF for b in bs):
            return UNDEF
        if all(isinstance(b, tuple) and b[0] == "byte" and b[2] == i and b[3] == len(bs) and b[1] is bs[0][1] for i, b in enumerate(bs)):
            return bs[0][1]
        if isinstance(bs[0], B2I) and all(b == 0 for b in bs[1:] if isinstance(b, int)) and all(isinstance(b, int) for b in bs[1:]):
            return B2I(bs[0].b, 8 * len(bs))
        if all(isinstance(b, (int, z3.BitVecRef, B2I)) for b in bs):
            return z3.simplify(z3.Concat(*[self.toint(b, 8) for b in reversed(bs)]))
        raise Unsupported("mixed bytes %r" % (bs,))

    def access(self, st, p, size, write, what):
        """-> (obj, offset) with bounds obligation"""
        if p is UNDEF:
            self.oblige(st, False, "memory: uninitialised pointer %s" % self.here(st), "memory")
            raise PathEnd()
        if not isinstance(p, Ptr):
            raise Unsupported("access through %r" % (p,))
        if p.obj is None:
            self.oblige(st, False, "memory: %s through a null pointer in %s" % (what, self.here(st)), "memory")
            raise PathEnd()
        if p.obj not in st.objs:
            if isinstance(p.obj, str) and (self.mod.has_body(p.obj) or p.obj in self.mod.decls):
                raise Unsupported("data access to function")
            self.oblige(st, False, "memory: %s of a dead object in %s" % (what, self.here(st)), "memory")
            raise PathEnd()
        o = st.objs[p.obj]
        off = p.off
        if isinstance(off, Lin) and off.key() in st.conc:
            off = st.conc[off.key()]
        cond = AND(lin.rel("<=", 0, off), lin.rel("<=", lin.add(off, size), o.size))
        if cond is not True:
            self.oblige(st, cond, "memory: %s in bounds in %s" % (what, self.here(st)), "memory")
        elif o.kind == "array":
            self.oblige(st, True, "memory: %s in bounds in %s" % (what, self.here(st)), "memory")
        if write and o.const:
            self.oblige(st, False, "memory: write to a constant in %s" % self.here(st), "memory")
            raise PathEnd()
        if write and o.kind in ("global", "extern"):
            st.globals_written.add(p.obj)
            self.gw.add((p.obj, self.here(st)))
        if isinstance(o, ByteObj) and isinstance(off, Lin):
            self.enum_off(st, o, off, size)
        return o, off

    def enum_off(self, st, o, off, size):
        g = 0
        import math
        for v in off.t.values():
            g = math.gcd(g, v)
        if not isinstance(o.size, int) or o.size // max(g, 1) > 300:
            # symbolic size: split on the concrete values one at a time is not possible
            raise Unsupported("symbolic offset into %s" % o.name)
        alts = []
        x = off.c % g
        while x + size <= o.size:
            def setv(s, x=x):
                s.conc[off.key()] = x
            alts.append((lin.rel("==", off, x), setv))
            x += g
        raise Split(alts)

    def here(self, st):
        return short_name(st.frames[-1].fn.name)

    def aligned(self, st, p, al):
        """accesses to local objects are aligned as their type demands"""
        o = st.objs[p.obj]
        if isinstance(o, ByteObj) and o.align and isinstance(p.off, int) and (p.off % al or o.align < al):
            self.oblige(st, False, "memory: aligned access in %s" % self.here(st), "memory")

    def load(self, st, ty, p):
        sz = ty.size() if ty.k != "int" else (ty.w + 7) // 8
        o, off = self.access(st, p, sz, False, "read")
        return self.load_at(st, o, off, ty)

    def load_at(self, st, o, off, ty):
        if ty.k == "struct":
            return Agg([self.load_at(st, o, lin.add(off, fo), f) for f, fo in zip(ty.fields, ty.offs())])
        if ty.k in ("array", "vector"):
            es = ty.elem.size()
            return Agg([self.load_at(st, o, lin.add(off, i * es), ty.elem) for i in range(ty.n)])
        sz = ty.size() if ty.k != "int" else (ty.w + 7) // 8
        if isinstance(o, ByteObj):
            if ty.k == "double":
                e = o.ent.get(off)
                if e is None or e[0] != sz:
                    return self.coerce(self.join_double(self.get(st, o, off, sz, True)), ty)
            v = self.get(st, o, off, sz)
            return self.coerce(v, ty)
        leaf = self.leaf_index(o, off)
        if sz == o.leaf:
            return o.read(leaf)
        if sz % o.leaf == 0:
            return self.join_bv([o.read(lin.add(leaf, i)) for i in range(sz // o.leaf)], o.leaf)
        raise Unsupported("array access of %d bytes with leaf %d" % (sz, o.leaf))

    def join_bv(self, vs, leaf):
        return z3.simplify(z3.Concat(*[self.toint(v, 8 * leaf) for v in reversed(vs)]))

    def coerce(self, v, ty):
        if ty.k == "ptr" and isinstance(v, int):
            return Ptr(None, v)
        if ty.k in ("double", "float") and isinstance(v, int):
            import struct
            f = struct.unpack("<d" if ty.k == "double" else "<f", v.to_bytes(ty.size(), "little"))[0]
            return Fr(f) if f == f and abs(f) != float("inf") else f
        if ty.k == "int" and ty.w == 1:
            if isinstance(v, B2I):
                return v.b
            if isinstance(v, z3.BitVecRef):
                return z3.Extract(0, 0, v) == 1
        return v

    def leaf_index(self, o, off):
        if isinstance(off, int):
            if off % o.leaf:
                raise Unsupported("misaligned array access")
            return off // o.leaf
        if not off.divisible(o.leaf):
            raise Unsupported("array offset %r not a multiple of the leaf" % off)
        return off.div(o.leaf)

    def store(self, st, ty, v, p):
        sz = ty.size() if ty.k != "int" else (ty.w + 7) // 8
        o, off = self.access(st, p, sz, True, "write")
        o = st.wobj(p.obj)
        self.store_at(st, o, off, ty, v, p.obj)

    def store_at(self, st, o, off, ty, v, oid):
        if isinstance(o, ByteObj):
            if isinstance(v, (bool, z3.BoolRef)):
                v = int(v) if isinstance(v, bool) else B2I(v, 8)
            self.put(st, o, off, ty, v)
            return
        if isinstance(v, Agg):
            if ty.k == "struct":
                for f, fo, x in zip(ty.fields, ty.offs(), v.v):
                    self.store_at(st, o, lin.add(off, fo), f, x, oid)
            else:
                for i, x in enumerate(v.v):
                    self.store_at(st, o, lin.add(off, i * ty.elem.size()), ty.elem, x, oid)
            return
        sz = ty.size()
        leaf = self.leaf_index(o, off)
        if sz == o.leaf:
            o.upd.append(("pt", leaf, self.leafval(v, o.leaf)))
        elif sz % o.leaf == 0:
            for i in range(sz // o.leaf):
                x = self.toint(v, 8 * sz)
                o.upd.append(("pt", lin.add(leaf, i), z3.simplify(z3.Extract(8 * o.leaf * (i + 1) - 1, 8 * o.leaf * i, x))))
        else:
            raise Unsupported("array store of %d bytes with leaf %d" % (sz, o.leaf))

    def leafval(self, v, leaf):
        if isinstance(v, (int, Lin, B2I)):
            return self.toint(v, 8 * leaf)
        if isinstance(v, z3.BitVecRef):
            return v
        if v is UNDEF:
            return z3.BitVec(self.fresh("undef"), 8 * leaf)
        raise Unsupported("array element %r" % (v,))

    def memcpy(self, st, d, s, n, what="memcpy", move=False):
        if isinstance(n, z3.BitVecRef):
            raise Unsupported("bit-vector length in memcpy")
        if isinstance(n, Lin):
            n = self.canon_u(st, n, 64)
        if isinstance(n, Lin) and n.key() in st.conc:
            n = st.conc[n.key()]
        if n == 0 and isinstance(n, int):
            return
        if isinstance(n, Lin) and (d.obj is None or s.obj is None or self.implied(st, lin.rel("==", n, 0))):
            # null pointers are tolerated for zero length only
            self.oblige(st, lin.rel("==", n, 0), "memory: %s through a null pointer in %s" % (what, self.here(st)), "memory")
            return
        so, soff = self.access(st, s, n, False, what + " source")
        do, doff = self.access(st, d, n, True, what + " destination")
        if d.obj == s.obj and not move:
            nov = OR(lin.rel("<=", lin.add(doff, n), soff), lin.rel("<=", lin.add(soff, n), doff))
            same = lin.rel("==", doff, soff)
            self.oblige(st, OR(nov, same), "memory: %s ranges do not overlap in %s" % (what, self.here(st)), "memory")
        if isinstance(do, ByteObj) and isinstance(so, ByteObj):
            if not isinstance(n, int):
                raise Unsupported("symbolic length memcpy between byte objects")
            ents, i = [], 0
            if n > 512:
                for x in sorted(so.ent):
                    if soff <= x and x + so.ent[x][0] <= soff + n:
                        ents.append((x - soff, so.ent[x][0], so.ent[x][1]))
                if so.init == "zero":
                    raise Unsupported("big zero memcpy")
                i = n
            while i < n:
                e = so.ent.get(soff + i)
                if e is not None and i + e[0] <= n:
                    ents.append((i, e[0], e[1]))
                    i += e[0]
                else:
                    v = self.get(st, so, soff + i, 1)
                    if v is not UNDEF:
                        ents.append((i, 1, v))
                    i += 1
            do = st.wobj(d.obj)
            self.clear(st, do, doff, n)
            if do.init != "undef":
                for i in range(n):
                    do.ent[doff + i] = (1, UNDEF)
                covered = set()
                for i, sz, v in ents:
                    for k in range(sz):
                        do.ent.pop(doff + i + k, None)
            for i, sz, v in ents:
                do.ent[doff + i] = (sz, v)
            return
        if isinstance(do, ArrObj) and isinstance(so, ArrObj):
            if do.leaf != so.leaf:
                raise Unsupported("memcpy between arrays of different leaf")
            L = do.leaf
            di, si = self.leaf_index(do, doff), self.leaf_index(so, soff)
            cnt = self.leaf_index(do, n)
            snap = list(so.upd)
            base = so.init
            do = st.wobj(d.obj)
            if isinstance(cnt, int) and cnt <= 4:
                vals = [so.read(lin.add(si, i)) for i in range(cnt)]
                for i, v in enumerate(vals):
                    do.upd.append(("pt", lin.add(di, i), v))
                return
            delta = lin.sub(si, di)
            do.upd.append(("rg", di, cnt, lambda i, delta=delta, snap=snap, base=base: read_upds(snap, lin.add(i, delta), base)))
            return
        if not isinstance(n, int):
            raise Unsupported("symbolic memcpy between array and byte object")
        if isinstance(do, ArrObj):
            L = do.leaf
            di = self.leaf_index(do, doff)
            vals = [self.get(st, so, soff + i, L) for i in range(0, n, L)]
            do = st.wobj(d.obj)
            for i, v in enumerate(vals):
                do.upd.append(("pt", lin.add(di, i), self.leafval(v, L)))
            return
        L = so.leaf
        si = self.leaf_index(so, soff)
        vals = [so.read(lin.add(si, i)) for i in range(n // L)]
        do = st.wobj(d.obj)
        self.clear(st, do, doff, n)
        for i, v in enumerate(vals):
            do.ent[doff + i * L] = (L, v)

    def new_obj(self, st, o):
        i = st.nobj
        st.nobj += 1
        st.objs[i] = o
        st.owned.add(i)
        return i

    # ------------------------------------------------------------ arithmetic
    def gep(self, st, ty, base, idx):
        if base is UNDEF:
            return UNDEF
        if not isinstance(base, Ptr):
            raise Unsupported("gep on %r" % (base,))
        off = base.off
        cur = ty
        for k, (it, v) in enumerate(idx):
            if isinstance(v, int):
                if v >= 1 << (it.w - 1):
                    v -= 1 << it.w
            elif isinstance(v, Lin):
                v = self.canon_s(st, v, it.w)
            elif isinstance(v, z3.BitVecRef):
                sv = z3.simplify(v)
                if z3.is_bv_value(sv):
                    v = sv.as_signed_long()
                else:
                    v = self.enum_bv(st, v)
            elif v is UNDEF:
                return UNDEF
            else:
                raise Unsupported("gep index %r" % (v,))
            if k == 0:
                off = lin.add(off, lin.scale(v, cur.size()))
            elif cur.k == "struct":
                off = lin.add(off, cur.offs()[v])
                cur = cur.fields[v]
            else:
                cur = cur.elem
                off = lin.add(off, lin.scale(v, cur.size()))
        return Ptr(base.obj, off)

    def enum_bv(self, st, v):
        """split on the (few) possible values of a bit-vector used as an index"""
        k = ("bv", v.get_id())
        if k in st.conc:
            return st.conc[k][0]
        alts, pc = [], list(st.pc)
        for _ in range(70):
            if self.check(pc) != "sat":
                break
            x = self.model().eval(v, model_completion=True).as_long()
            sx = x - (1 << v.size()) if x >> (v.size() - 1) else x

            def setv(s, sx=sx):
                s.conc[k] = (sx, v)
            alts.append((v == x, setv))
            pc = pc + [v != x]
        else:
            raise Unsupported("symbolic bit-vector index")
        raise Split(alts)

    def zb(self, b):
        return z3.BoolVal(b) if isinstance(b, bool) else b

    def asbool(self, v):
        if isinstance(v, (bool, z3.BoolRef)):
            return v
        if isinstance(v, int):
            return bool(v & 1)
        if isinstance(v, B2I):
            return v.b
        if isinstance(v, z3.BitVecRef):
            return z3.simplify(v == 1)
        raise Unsupported("boolean from %r" % (v,))

    def binop(self, st, op, ty, a, b, fl):
        w = ty.w
        if ty.k == "vector":
            raise Unsupported("vector integer arithmetic")
        if a is UNDEF or b is UNDEF:
            return UNDEF
        M = 1 << w
        if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool):
            return self.binop_c(st, op, w, a, b, fl)
        if w == 1:
            a, b = self.asbool(a), self.asbool(b)
            if op == "and":
                return AND(a, b)
            if op == "or":
                return OR(a, b)
            if op == "xor":
                if isinstance(a, bool):
                    return NOT(b) if a else b
                if isinstance(b, bool):
                    return NOT(a) if b else a
                return z3.Xor(a, b)
            raise Unsupported("i1 " + op)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_arith(st, op, a, b)
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise Unsupported("arithmetic on opaque value")
        isl = isinstance(a, Lin) or isinstance(b, Lin)
        if isl and not (isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef)):
            if isinstance(a, B2I):
                a = self.b2i_lin(st, a)
            if isinstance(b, B2I):
                b = self.b2i_lin(st, b)
            return self.binop_lin(st, op, w, a, b, fl)
        za, zb = self.toint(a, w), self.toint(b, w)
        if "nsw" in fl and op in ("add", "sub", "mul"):
            c = {"add": lambda: AND(z3.BVAddNoOverflow(za, zb, True), z3.BVAddNoUnderflow(za, zb)),
                 "sub": lambda: AND(z3.BVSubNoOverflow(za, zb), z3.BVSubNoUnderflow(za, zb, True)),
                 "mul": lambda: AND(z3.BVMulNoOverflow(za, zb, True), z3.BVMulNoUnderflow(za, zb))}[op]()
            self.oblige(st, z3.simplify(c), "arith: no signed overflow in %s" % self.here(st), "ub")
        if op == "add":
            r = za + zb
        elif op == "sub":
            r = za - zb
        elif op == "mul":
            r = za * zb
        elif op == "and":
            r = za & zb
        elif op == "or":
            r = za | zb
        elif op == "xor":
            r = za ^ zb
        elif op in ("shl", "lshr", "ashr"):
            if isinstance(b, int):
                if b >= w:
                    self.oblige(st, False, "arith: shift amount in range in %s" % self.here(st), "ub")
                    raise PathEnd()
            else:
                self.oblige(st, z3.ULT(zb, w), "arith: shift amount in range in %s" % self.here(st), "ub")
            r = za << zb if op == "shl" else z3.LShR(za, zb) if op == "lshr" else za >> zb
        else:
            self.oblige(st, zb != 0, "arith: no division by zero in %s" % self.here(st), "ub")
            if op in ("sdiv", "srem"):
                self.oblige(st, NOT(z3.And(za == 1 << (w - 1), zb == M - 1)), "arith: no division overflow in %s" % self.here(st), "ub")
            r = {"udiv": lambda: z3.UDiv(za, zb), "sdiv": lambda: za / zb, "urem": lambda: z3.URem(za, zb), "srem": lambda: z3.SRem(za, zb)}[op]()
        r = z3.simplify(r)
        return r.as_long() if z3.is_bv_value(r) else r

    def binop_c(self, st, op, w, a, b, fl):
        M = 1 << w
        S = lambda x: x - M if x >> (w - 1) else x
        if op in ("add", "sub", "mul"):
            f = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y}[op]
            if "nsw" in fl and w > 1:
                r = f(S(a), S(b))
                if not -(M >> 1) <= r < (M >> 1):
                    self.oblige(st, False, "arith: no signed overflow in %s" % self.here(st), "ub")
                    raise PathEnd()
            return f(a, b) % M
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op in ("shl", "lshr", "ashr"):
            if b >= w:
                self.oblige(st, False, "arith: shift amount in range in %s" % self.here(st), "ub")
                raise PathEnd()
            if op == "shl":
                return (a << b) % M
            if op == "lshr":
                return a >> b
            return (S(a) >> b) % M
        if b == 0:
            self.oblige(st, False, "arith: no division by zero in %s" % self.here(st), "ub")
            raise PathEnd()
        if op == "udiv":
            return a // b
        if op == "urem":
            return a % b
        sa, sb = S(a), S(b)
        q = abs(sa) // abs(sb)
        if (sa < 0) != (sb < 0):
            q = -q
        return q % M if op == "sdiv" else (sa - q * sb) % M

    def ptr_arith(self, st, op, a, b):
        if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                r = lin.sub(a.off, b.off)
                return r % (1 << 64) if isinstance(r, int) else r
            raise Unsupported("difference of pointers into different objects")
        if op in ("add", "sub") and isinstance(a, Ptr) and not isinstance(b, Ptr):
            if isinstance(b, int):
                b = b - (1 << 64) if b >> 63 else b
            elif isinstance(b, Lin):
                b = self.canon_s(st, b, 64)
            else:
                raise Unsupported("pointer offset")
            return Ptr(a.obj, lin.add(a.off, b) if op == "add" else lin.sub(a.off, b))
        if op == "add" and isinstance(b, Ptr):
            return self.ptr_arith(st, "add", b, a)
        if op in ("and", "urem") and isinstance(b, int):
            m = b + 1 if op == "and" else b
            if m & (m - 1) == 0 and m <= 4096:
                if isinstance(a.off, int) and m <= 16:
                    return a.off % m
                if isinstance(a.off, int):
                    # addresses of stack objects: alignment of the object is known through the alloca
                    o = st.objs.get(a.obj)
                    al = o.align if isinstance(o, ByteObj) else None
                    if al and al >= m:
                        return a.off % m
        if isinstance(a, Ptr) and a.obj is None and isinstance(a.off, int) and isinstance(b, int):
            return self.binop_c(st, op, 64, a.off, b, ())
        raise Unsupported("pointer arithmetic " + op)

    def binop_lin(self, st, op, w, a, b, fl):
        M = 1 << w
        if op in ("add", "sub", "mul"):
            if op == "mul" and not isinstance(a, int) and not isinstance(b, int):
                raise Unsupported("nonlinear integer product")
            if "nsw" in fl:
                a, b = self.canon_s(st, a, w), self.canon_s(st, b, w)
            elif isinstance(a, int):
                a = self.canon_s(st, a, w)
            elif isinstance(b, int):
                b = self.canon_s(st, b, w)
            r = lin.add(a, b) if op == "add" else lin.sub(a, b) if op == "sub" else (lin.scale(a, b) if isinstance(b, int) else lin.scale(b, a))
            if "nsw" in fl:
                self.oblige(st, AND(lin.rel("<=", -(M >> 1), r), lin.rel("<", r, M >> 1)), "arith: no signed overflow in %s" % self.here(st), "ub")
            return r % M if isinstance(r, int) else r
        if op == "shl" and isinstance(b, int):
            r = lin.scale(a, 1 << b)
            return r
        if op in ("udiv", "urem", "lshr") and isinstance(b, int):
            a = self.canon_u(st, a, w)
            d = b if op != "lshr" else 1 << b
            if d == 0:
                self.oblige(st, False, "arith: no division by zero in %s" % self.here(st), "ub")
                raise PathEnd()
            q, r = self.divmod_u(st, a, d)
            return r if op == "urem" else q
        if op in ("urem", "udiv") and isinstance(b, Lin):
            # ring arithmetic: x % cap with cap symbolic: introduce quotient case split for 0 <= x < 2*cap
            a, b = self.canon_u(st, a, w), self.canon_u(st, b, w)
            self.oblige(st, lin.rel("!=", b, 0), "arith: no division by zero in %s" % self.here(st), "ub")
            if self.decide(st, lin.rel("<", a, b)):
                return a if op == "urem" else 0
            if self.implied(st, lin.rel("<", a, lin.scale(b, 2))):
                return lin.sub(a, b) if op == "urem" else 1
            raise Unsupported("symbolic modulus")
        if op in ("sdiv", "srem", "ashr") and isinstance(b, int):
            a = self.canon_s(st, a, w)
            d = self.canon_s(st, b, w) if op != "ashr" else 1 << b
            if isinstance(a, int):
                return self.binop_c(st, op, w, a % M, b, fl)
            if d > 0 and a.divisible(d):
                return a.div(d) if op != "srem" else 0
            if op == "ashr" or self.decide(st, lin.rel("<=", 0, a)):
                if d > 0:
                    q, r = self.divmod_u(st, a, d)
                    return r if op == "srem" else q
            if d > 0:
                q, r = self.divmod_u(st, lin.scale(a, -1), d)
                return lin.scale(r, -1) if op == "srem" else lin.scale(q, -1)
        if op == "and" and isinstance(b, int) and b & (b + 1) == 0:
            a = self.canon_u(st, a, w)
            return self.divmod_u(st, a, b + 1)[1]
        if op == "xor" and b == M - 1:
            return lin.add(lin.scale(a, -1), -1)
        if op == "and" and isinstance(a, Lin) and isinstance(b, int) and (M - b) & (M - b - 1) == 0:
            a = self.canon_u(st, a, w)
            d = M - b
            q, r = self.divmod_u(st, a, d)
            return lin.scale(q, d)
        raise Unsupported("symbolic integer operation %s" % op)

    PRED = {"eq": "==", "ne": "!="}

    def icmp(self, st, pred, ty, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, tuple) or isinstance(b, tuple):
            if pred in ("eq", "ne") and isinstance(a, tuple) and isinstance(b, tuple) and a == b:
                return pred == "eq"
            raise Unsupported("comparison of opaque values")
        if ty.k == "ptr" or isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.pcmp(st, pred, a, b)
        w = ty.w
        if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool):
            if pred[0] == "s":
                M = 1 << w
                a = a - M if a >> (w - 1) else a
                b = b - M if b >> (w - 1) else b
            return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[pred if pred in ("eq", "ne") else pred[1:]]
        if w == 1:
            a, b = self.asbool(a), self.asbool(b)
            if pred == "eq":
                return AND(OR(NOT(a), b), OR(a, NOT(b)))
            if pred == "ne":
                return OR(AND(NOT(a), b), AND(a, NOT(b)))
            raise Unsupported("i1 compare")
        if isinstance(a, B2I) and isinstance(b, int):
            if b == 0 and pred in ("eq", "ne"):
                return a.b if pred == "ne" else NOT(a.b)
            if b == 1 and pred in ("eq", "ne"):
                return a.b if pred == "eq" else NOT(a.b)
        if isinstance(a, B2I) and isinstance(b, B2I) and pred in ("eq", "ne"):
            return self.icmp(st, pred, int_ty(1), a.b, b.b)
        if (isinstance(a, Lin) or isinstance(b, Lin)) and not isinstance(a, z3.BitVecRef) and not isinstance(b, z3.BitVecRef):
            if isinstance(a, B2I):
                a = self.b2i_lin(st, a)
            if isinstance(b, B2I):
                b = self.b2i_lin(st, b)
            if self.summ_cmps is not None:
                self.summ_cmps.append(lin.sub(a, b))
            if pred in ("eq", "ne"):
                d = lin.sub(a, b)
                if isinstance(d, int):
                    return (d % (1 << w) == 0) == (pred == "eq")
                M = 1 << w
                lo, hi = d.interval()
                if not (lo is not None and hi is not None and lo > -M and hi < M) and not self.implied(st, AND(lin.rel("<", -M, d), lin.rel("<", d, M))):
                    a, b = self.canon_u(st, a, w), self.canon_u(st, b, w)
                return lin.rel(self.PRED[pred], a, b)
            c = self.canon_s if pred[0] == "s" else self.canon_u
            a, b = c(st, a, w), c(st, b, w)
            p = pred[1:]
            if p == "lt":
                return lin.rel("<", a, b)
            if p == "le":
                return lin.rel("<=", a, b)
            if p == "gt":
                return lin.rel("<", b, a)
            return lin.rel("<=", b, a)
        za, zb = self.toint(a, w), self.toint(b, w)
        r = {"eq": lambda: za == zb, "ne": lambda: za != zb,
             "ult": lambda: z3.ULT(za, zb), "ule": lambda: z3.ULE(za, zb), "ugt": lambda: z3.UGT(za, zb), "uge": lambda: z3.UGE(za, zb),
             "slt": lambda: za < zb, "sle": lambda: za <= zb, "sgt": lambda: za > zb, "sge": lambda: za >= zb}[pred]()
        r = z3.simplify(r)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return r

    def addr(self, p):
        """symbolic address"""
        if p.obj is None:
            return p.off
        n = "addr!%s" % p.obj
        if n not in lin.SYMS:
            lin.sym(n, 1 << 16, 1 << 62)
        return lin.add(lin.Lin({n: 1}, 0), p.off)

    def pcmp(self, st, pred, a, b):
        if isinstance(a, int):
            a = Ptr(None, a)
        if isinstance(b, int):
            b = Ptr(None, b)
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            raise Unsupported("pointer comparison %r %r" % (a, b))
        if a.obj == b.obj:
            p = pred if pred in ("eq", "ne") else pred[1:]
            x, y = a.off, b.off
            if self.summ_cmps is not None:
                self.summ_cmps.append(lin.sub(x, y))
            if p == "eq":
                return lin.rel("==", x, y)
            if p == "ne":
                return lin.rel("!=", x, y)
            if p == "lt":
                return lin.rel("<", x, y)
            if p == "le":
                return lin.rel("<=", x, y)
            if p == "gt":
                return lin.rel("<", y, x)
            return lin.rel("<=", y, x)
        if a.obj is None or b.obj is None:
            # null (or a small constant) against a real object
            if pred == "eq":
                return False
            if pred == "ne":
                return True
            o, c = (a, b) if b.obj is None else (b, a)
            if isinstance(c.off, int) and c.off < 4096:
                big = pred[1:] in ("gt", "ge")
                return big if o is a else not big
        if pred in ("eq", "ne"):
            inb = True
            for p in (a, b):
                o = st.objs.get(p.obj)
                if o is None:
                    if isinstance(p.obj, str):
                        continue
                    raise Unsupported("comparison with a dangling pointer")
                lo = lin.rel("<=", 0, p.off)
                hi = lin.rel("<", p.off, o.size)
                if not (lo is True and hi is True) and not self.implied(st, AND(lo, hi)):
                    inb = False
            if inb:
                return pred == "ne"
            # one may be a past-the-end pointer: either answer is possible
            x = z3.Bool(self.fresh("ptreq"))
            return x if pred == "eq" else NOT(x)
        return z3.Bool(self.fresh("ptrcmp"))

    def cast(self, st, op, ty, v, ty2):
        if v is UNDEF:
            return UNDEF
        if op == "bitcast":
            if isinstance(v, Agg) or ty2.k in ("vector", "struct"):
                raise Unsupported("bitcast of aggregate")
            return v
        if op in ("ptrtoint", "inttoptr"):
            if op == "inttoptr" and isinstance(v, int):
                return Ptr(None, v)
            if isinstance(v, Ptr):
                return v
            raise Unsupported(op)
        if op in ("fpext", "fptrunc"):
            if isinstance(v, z3.FPRef):
                return z3.fpFPToFP(z3.RNE(), v, fpsort(ty2))
            if op == "fptrunc":
                self.assumptions.add("floating-point arithmetic taken as exact real arithmetic")
            return v
        if op in ("sitofp", "uitofp"):
            if isinstance(v, int):
                if op == "sitofp" and v >> (ty.w - 1):
                    v -= 1 << ty.w
                return Fr(v)
            if isinstance(v, z3.BitVecRef):
                return (z3.fpSignedToFP if op == "sitofp" else z3.fpUnsignedToFP)(z3.RNE(), v, fpsort(ty2))
            raise Unsupported("symbolic int to float")
        if op in ("fptosi", "fptoui"):
            if isinstance(v, Fr):
                return int(v) % (1 << ty2.w)
            raise Unsupported("symbolic float to int")
        w, w2 = ty.w, ty2.w
        if isinstance(v, (bool, z3.BoolRef)) and w == 1:
            if isinstance(v, bool):
                return (1 if op == "zext" else (1 << w2) - 1) if v else 0
            if op == "zext":
                return B2I(v, w2)
            return z3.If(v, z3.BitVecVal((1 << w2) - 1, w2), z3.BitVecVal(0, w2))
        if isinstance(v, int):
            if op == "trunc":
                return v & ((1 << w2) - 1)
            if op == "sext" and v >> (w - 1):
                return v | ((1 << w2) - (1 << w))
            return v
        if isinstance(v, B2I):
            if op == "trunc" and w2 == 1:
                return v.b
            if op == "sext" and v.w == 1:
                raise Unsupported("sext i1")
            return B2I(v.b, w2)
        if isinstance(v, Lin):
            if op == "trunc":
                if w2 == 1:
                    return lin.rel("==", self.divmod_u(st, self.canon_u(st, v, w), 2)[1], 1)
                return v
            return self.canon_u(st, v, w) if op == "zext" else self.canon_s(st, v, w)
        if isinstance(v, z3.BitVecRef):
            if op == "trunc":
                if w2 == 1:
                    return z3.simplify(z3.Extract(0, 0, v) == 1)
                r = z3.simplify(z3.Extract(w2 - 1, 0, v))
            else:
                r = z3.simplify((z3.ZeroExt if op == "zext" else z3.SignExt)(w2 - w, v))
            return r.as_long() if z3.is_bv_value(r) else r
        if isinstance(v, Ptr) and op == "trunc":
            raise Unsupported("truncated pointer")
        raise Unsupported("cast %s of %r" % (op, v))

    # ---- floating point
    def fbin(self, st, op, ty, a, b):
        if isinstance(a, Agg) or isinstance(b, Agg):
            return Agg([self.fbin(st, op, ty.elem, x, y) for x, y in zip(a.v, b.v)])
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, z3.FPRef) or isinstance(b, z3.FPRef):
            s = fpsort(ty)
            a, b = tofp(a, s), tofp(b, s)
            rm = z3.RNE()
            return {"fadd": lambda: z3.fpAdd(rm, a, b), "fsub": lambda: z3.fpSub(rm, a, b), "fmul": lambda: z3.fpMul(rm, a, b), "fdiv": lambda: z3.fpDiv(rm, a, b)}[op]()
        if isinstance(a, float) or isinstance(b, float):
            raise Unsupported("infinity or NaN in exact arithmetic")
        if isinstance(a, int):
            a = Fr(a)
        if isinstance(b, int):
            b = Fr(b)
        if isinstance(a, tuple) or isinstance(b, tuple) or isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef):
            raise Unsupported("floating-point operation on opaque value")
        if op == "fadd":
            return real.add(a, b)
        if op == "fsub":
            return real.sub(a, b)
        if op == "fmul":
            return real.mul(a, b)
        if op == "fdiv":
            if isinstance(b, Fr):
                if b == 0:
                    self.oblige(st, False, "arith: no division by zero in %s" % self.here(st), "divzero")
                    raise PathEnd()
                return real.mul(a, 1 / b)
            self.nonzero(st, b)
            return real.div(a, b)
        raise Unsupported(op)

    def nonzero(self, st, b):
        c = real.rel("!=", b, Fr(0))
        if c is True or any(x is c or (isinstance(x, z3.ExprRef) and x.eq(c)) for x in st.pc):
            return
        if self.div_assumed or self.obl_on == "skip":
            self.assumptions.add("divisors in %s are non-zero" % self.here(st))
            st.pc.append(c)
            return
        r = self.check(st.pc, NOT(c), timeout=5000)
        if r == "unknown":
            self.assumptions.add("divisors in %s are non-zero" % self.here(st))
            st.pc.append(c)
            return
        self.oblige(st, c, "arith: no division by zero in %s" % self.here(st), "divzero")

    def fcmp(self, st, pred, ty, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, z3.FPRef) or isinstance(b, z3.FPRef):
            s = fpsort(ty)
            a, b = tofp(a, s), tofp(b, s)
            un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            p = pred[1:] if pred not in ("ord", "uno") else pred
            if pred == "ord":
                return NOT(un)
            if pred == "uno":
                return un
            c = {"eq": lambda: z3.fpEQ(a, b), "ne": lambda: NOT(z3.Or(un, z3.fpEQ(a, b))), "lt": lambda: z3.fpLT(a, b), "le": lambda: z3.fpLEQ(a, b),
                 "gt": lambda: z3.fpGT(a, b), "ge": lambda: z3.fpGEQ(a, b)}[p]()
            return z3.simplify(OR(un, c) if pred[0] == "u" else c)
        if isinstance(a, float) or isinstance(b, float):
            raise Unsupported("comparison with infinity or NaN")
        if pred == "ord":
            return True
        if pred == "uno":
            return False
        p = pred[1:]
        if p == "eq":
            return real.rel("==", a, b)
        if p == "ne":
            return real.rel("!=", a, b)
        if p == "lt":
            return real.rel("<", a, b)
        if p == "le":
            return real.rel("<=", a, b)
        if p == "gt":
            return real.rel("<", b, a)
        return real.rel("<=", b, a)

    # ------------------------------------------------------------ equality of opaque values
    def val_eq(self, st, a, b):
        if a is UNDEF and b is UNDEF:
            return True
        if a is UNDEF or b is UNDEF:
            return False
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, int):
                a = Ptr(None, a)
            if isinstance(b, int):
                b = Ptr(None, b)
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
                return False
            if a.obj != b.obj:
                return False
            return lin.rel("==", a.off, b.off)
        if isinstance(a, Lin) or isinstance(b, Lin):
            return self.icmp(st, "eq", int_ty(64), a, b)
        if isinstance(a, (R, Fr)) and isinstance(b, (R, Fr)):
            return real.rel("==", a, b)
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if isinstance(a, tuple) or isinstance(b, tuple):
            return a == b
        if isinstance(a, z3.FPRef) or isinstance(b, z3.FPRef):
            s = a.sort() if isinstance(a, z3.FPRef) else b.sort()
            return tofp(a, s) == tofp(b, s)
        w = a.size() if isinstance(a, z3.BitVecRef) else b.size() if isinstance(b, z3.BitVecRef) else 64
        return z3.simplify(self.toint(a, w) == self.toint(b, w))

    # ------------------------------------------------------------ execution
    def run(self, name, bind=None):
        self.t0 = time.time()
        st = State()
        fn = self.mod.func(name)
        if fn.params:
            raise Unsupported("contract with parameters")
        st.frames.append(Frame(fn))
        self.fns.add(name)
        work = [st]
        self.explore(work, self.finish)

    def finish(self, st, how):
        if how != "#summ":
            self.paths += 1

    def explore(self, work, on_end):
        """run every state in `work` to its end (on_end(state, how))"""
        self.cur_work.append(work)
        self.cur_end.append(on_end)
        try:
            self._explore(work, on_end)
        finally:
            self.cur_work.pop()
            self.cur_end.pop()

    def _explore(self, work, on_end):
        while work:
            st = work.pop()
            try:
                how = self.run_path(st, work)
                if how is not None:
                    on_end(st, how)
            except PathEnd:
                pass
            if self.paths > self.limits["paths"] or self.insts > self.limits["insts"] or time.time() - self.t0 > self.limits["secs"]:
                raise GiveUp("resource limit (paths=%d insts=%d)" % (self.paths, self.insts))

    def run_path(self, st, work):
        while True:
            f = st.frames[-1]
            if f.ip == 0 and f.blk.phis:
                self.do_phis(st, f)
            ins = f.blk.insts[f.ip]
            self.insts += 1
            if self.insts & 4095 == 0 and time.time() - self.t0 > self.limits["secs"]:
                raise GiveUp("time limit")
            try:
                r = self.step(st, f, ins)
            except Split as sp:
                self.do_split(st, sp, work)
                return None
            if r is not None:
                return r

    def do_phis(self, st, f):
        if f.regs.get("#phi") == (f.blk.name, f.prev, f.visits.get("#t", 0)):
            return
        vals = []
        for ph in f.blk.phis:
            for op, lab in ph.a[1]:
                if lab == f.prev:
                    vals.append((ph.dst, self.val(st, op, ph.a[0])))
                    break
            else:
                raise Unsupported("phi without incoming edge")
        for d, v in vals:
            f.regs[d] = v
        f.regs["#phi"] = (f.blk.name, f.prev, f.visits.get("#t", 0))

    def do_split(self, st, sp, work):
        alts = []
        for cond, setup in sp.alts:
            if cond is False:
                continue
            if cond is not True and not sp.feasible and self.check(st.pc, cond) == "unsat":
                continue
            alts.append((cond, setup))
        if len(alts) > 1:
            self.note_fork(st)
        for cond, setup in reversed(alts):
            s2 = st.copy() if len(alts) > 1 else st
            if cond is not True:
                s2.pc.append(cond)
            if setup:
                setup(s2)
            work.append(s2)

    def note_fork(self, st):
        """count symbolic decisions inside loops of every active frame"""
        for f in st.frames:
            h = self.innermost_loop(f)
            if h is not None:
                k = ("sym", h)
                f.visits[k] = f.visits.get(k, 0) + 1
                if f.visits[k] > self.limits["unroll"] * 4:
                    raise NeedSummary(f.fn.name, h)

    def innermost_loop(self, f):
        import loops
        return loops.innermost(f.fn, f.blk.name)

    def goto(self, st, f, label):
        f.prev = f.blk.name
        f.blk = f.fn.blocks[label]
        f.ip = 0
        f.visits["#t"] = f.visits.get("#t", 0) + 1
        n = f.visits.get(label, 0) + 1
        f.visits[label] = n
        if n > 100000:
            raise GiveUp("loop without end in " + f.fn.name)
        if st.loopctx or self.summarise:
            import loops
            return loops.at_block(self, st, f)
        return None

    def branch(self, st, f, c, t, e):
        if c is UNDEF:
            self.oblige(st, False, "memory: branch on an uninitialised value in %s" % self.here(st), "memory")
            raise PathEnd()
        c = self.asbool(c)
        return self.goto(st, f, t if self.decide(st, c) else e)

    def step(self, st, f, ins):
        op, a = ins.op, ins.a
        if op == "load":
            p = self.val(st, a[1], PTR)
            v = self.load(st, a[0], p)
            if a[2] > 1:
                self.aligned(st, p, a[2])
            f.regs[ins.dst] = v
        elif op == "store":
            p = self.val(st, a[2], PTR)
            self.store(st, a[0], self.val(st, a[1], a[0]), p)
            if a[3] > 1:
                self.aligned(st, p, a[3])
        elif op == "alloca":
            n = 1
            if a[1] is not None:
                n = self.val(st, a[1], int_ty(64))
                if not isinstance(n, int):
                    raise Unsupported("symbolic alloca")
            o = ByteObj(short_name(f.fn.name) + ins.dst, a[0].size() * n)
            m = __import__("re").search(r'align (\d+)', ins.text)
            o.align = int(m.group(1)) if m else 8
            i = self.new_obj(st, o)
            f.allocas.append(i)
            f.regs[ins.dst] = Ptr(i, 0)
        elif op == "gep":
            b = self.val(st, a[1], PTR)
            f.regs[ins.dst] = self.gep(st, a[0], b, [(t, self.val(st, o, t)) for t, o in a[2]])
        elif op == "bin":
            f.regs[ins.dst] = self.binop(st, a[0], a[1], self.val(st, a[2], a[1]), self.val(st, a[3], a[1]), a[4])
        elif op == "fbin":
            f.regs[ins.dst] = self.fbin(st, a[0], a[1], self.val(st, a[2], a[1]), self.val(st, a[3], a[1]))
        elif op == "fneg":
            v = self.val(st, a[1], a[0])
            f.regs[ins.dst] = self.fneg(v)
        elif op == "icmp":
            f.regs[ins.dst] = self.icmp(st, a[0], a[1], self.val(st, a[2], a[1]), self.val(st, a[3], a[1]))
        elif op == "fcmp":
            f.regs[ins.dst] = self.fcmp(st, a[0], a[1], self.val(st, a[2], a[1]), self.val(st, a[3], a[1]))
        elif op == "cast":
            f.regs[ins.dst] = self.cast(st, a[0], a[1], self.val(st, a[2], a[1]), a[3])
        elif op == "jmp":
            return self.goto(st, f, a[0])
        elif op == "br":
            return self.branch(st, f, self.val(st, a[0], int_ty(1)), a[1], a[2])
        elif op == "switch":
            v = self.val(st, a[1], a[0])
            for cv, lab in a[3]:
                if self.decide(st, self.icmp(st, "eq", a[0], v, cv[1])):
                    return self.goto(st, f, lab)
            return self.goto(st, f, a[2])
        elif op == "select":
            c = self.val(st, a[1], a[0])
            if c is UNDEF:
                self.oblige(st, False, "memory: branch on an uninitialised value in %s" % self.here(st), "memory")
                raise PathEnd()
            c = self.asbool(c)
            try:
                d = self.decide(st, c)
            except Split:
                # c ? 1 : 0 is a widened boolean
                x, y = self.val(st, a[3], a[2]), self.val(st, a[4], a[2])
                if not (isinstance(x, int) and isinstance(y, int) and {x, y} == {0, 1} and a[2].k == "int" and a[2].w > 1):
                    raise
                f.regs[ins.dst] = B2I(c if x else NOT(c), a[2].w)
            else:
                f.regs[ins.dst] = self.val(st, a[3] if d else a[4], a[2])
        elif op == "call":
            return self.call(st, f, ins)
        elif op == "ret":
            v = self.val(st, a[1], a[0]) if a[0] is not None else None
            return self.do_ret(st, f, v)
        elif op == "extractvalue":
            v = self.val(st, a[1], a[0])
            for i in a[2]:
                v = v.v[i]
            f.regs[ins.dst] = v
        elif op == "insertvalue":
            v = self.val(st, a[1], a[0])
            x = self.val(st, a[3], a[2])
            f.regs[ins.dst] = self.insertv(v, x, a[4])
        elif op == "extractelement":
            f.regs[ins.dst] = self.val(st, a[1], a[0]).v[self.val(st, a[2], int_ty(64))]
        elif op == "insertelement":
            v = Agg(self.val(st, a[1], a[0]).v)
            v.v[self.val(st, a[3], int_ty(64))] = self.val(st, a[2], None)
            f.regs[ins.dst] = v
        elif op == "freeze":
            f.regs[ins.dst] = self.val(st, a[1], a[0])
        elif op == "landingpad":
            f.regs[ins.dst] = st.exc
            st.exc = None
        elif op == "resume":
            v = self.val(st, a[1], a[0])
            return self.unwind(st, v.v[0])
        elif op == "unreachable":
            self.oblige(st, False, "memory: unreachable code reached in %s" % self.here(st), "ub")
            raise PathEnd()
        else:
            raise Unsupported("instruction " + op)
        f.ip += 1
        return None

    def insertv(self, v, x, ix):
        n = Agg(v.v)
        if len(ix) == 1:
            n.v[ix[0]] = x
        else:
            n.v[ix[0]] = self.insertv(n.v[ix[0]], x, ix[1:])
        return n

    def fneg(self, v):
        if isinstance(v, Agg):
            return Agg([self.fneg(x) for x in v.v])
        if v is UNDEF:
            return UNDEF
        if isinstance(v, z3.FPRef):
            return z3.fpNeg(v)
        if isinstance(v, float):
            return -v
        return real.neg(v)

    def do_ret(self, st, f, v):
        for i in f.allocas:
            st.objs.pop(i, None)
        st.frames.pop()
        if not st.frames:
            return "ret"
        g = st.frames[-1]
        ins = g.blk.insts[g.ip]
        return self.after_call(st, g, ins, v)

    def after_call(self, st, g, ins, v):
        if ins.dst is not None:
            g.regs[ins.dst] = v
        norm = ins.a[3]
        if norm is not None:
            return self.goto(st, g, norm)
        g.ip += 1
        if st.loopctx:
            import loops
            return loops.at_ret(self, st)
        return None

    def call(self, st, f, ins):
        rt, callee, args, norm, unw = ins.a
        if callee[0] == "reg" or callee[0] != "glob":
            p = self.val(st, callee, PTR)
            if p is UNDEF:
                self.oblige(st, False, "memory: call through an uninitialised pointer in %s" % self.here(st), "memory")
                raise PathEnd()
            if not isinstance(p, Ptr) or not isinstance(p.obj, str):
                if isinstance(p, Ptr):
                    self.oblige(st, False, "memory: call through a null or data pointer in %s" % self.here(st), "memory")
                    raise PathEnd()
                raise Unsupported("indirect call through %r" % (p,))
            name = p.obj
        else:
            name = callee[1]
        if name in self.mod.glob_src:
            g = self.mod.global_var(name)
            if g[0] == "alias":
                name = g[1][1]
        vals = [self.val(st, o, t) for t, o, bv in args]
        h = self.intr.get(name)
        if h is None:
            for pre, hh in self.intr_prefix:
                if name.startswith(pre):
                    h = hh
                    break
        if h is not None:
            r = h(self, st, f, ins, vals)
            if r is THROWN:
                return self.unwind(st, st.exc_ptr)
            if isinstance(r, EndPath):
                return r.how
            return self.after_call(st, f, ins, r)
        if not self.mod.has_body(name):
            raise Unsupported("external function " + name)
        if len(st.frames) > 400:
            raise Unsupported("recursion too deep")
        fn = self.mod.func(name)
        self.fns.add(name)
        g = Frame(fn)
        k = 0
        for (t, reg, bv), v, (at, ao, abv) in zip(fn.params, vals, args):
            if abv is not None:
                o = ByteObj("byval", abv.size())
                i = self.new_obj(st, o)
                g.allocas.append(i)
                self.memcpy(st, Ptr(i, 0), v, abv.size(), "argument copy")
                v = Ptr(i, 0)
            g.regs[reg] = v
        st.frames.append(g)
        if self.summarise:
            import loops
            return loops.at_block(self, st, g)
        return None

    intr_prefix = []

    # ------------------------------------------------------------ exceptions
    def typeid(self, name):
        return self.typeids.setdefault(name, len(self.typeids) + 1)

    BASES = {"@_ZTISt12out_of_range": ["@_ZTISt11logic_error", "@_ZTISt9exception"],
             "@_ZTISt17bad_function_call": ["@_ZTISt9exception"],
             "@_ZTISt9bad_alloc": ["@_ZTISt9exception"]}

    def unwind(self, st, excptr):
        """propagate the exception from the current instruction of the top frame"""
        ti = st.excs[excptr.obj][0]
        # phase 1: is there a handler at all?
        handler = False
        for f in reversed(st.frames):
            ins = f.blk.insts[f.ip]
            if ins.op == "call" and ins.a[4] is not None:
                lp = f.fn.blocks[ins.a[4]].insts[0]
                for c in lp.a[1]:
                    if self.matches(c, ti):
                        handler = True
        if not handler:
            self.oblige(st, False, "exceptions: no exception escapes the contract (%s)" % ti, "terminate")
            raise PathEnd()
        first = True
        while st.frames:
            f = st.frames[-1]
            ins = f.blk.insts[f.ip]
            if ins.op == "call" and ins.a[4] is not None and not (first and ins.op == "resume"):
                lab = ins.a[4]
                lp = f.fn.blocks[lab].insts[0]
                sel = None
                for c in lp.a[1]:
                    if self.matches(c, ti):
                        sel = 0x7fff if c[0] == "null" else self.typeid(c[1])
                        break
                if sel is None and lp.a[0]:
                    sel = 0
                if sel is not None:
                    st.exc = Agg([excptr, sel])
                    return self.goto(st, f, lab)
            first = False
            for i in f.allocas:
                st.objs.pop(i, None)
            st.frames.pop()
        raise GiveUp("unwinding")

    def matches(self, c, ti):
        if c[0] == "null":
            return True
        return c[1] == ti or c[1] in self.BASES.get(ti, ())


THROWN = object()


class EndPath:
    def __init__(self, how):
        self.how = how


def fpsort(ty):
    return {"double": z3.Float64, "float": z3.Float32}[ty.k]()


def tofp(v, s):
    if isinstance(v, z3.FPRef):
        return v
    if isinstance(v, Fr):
        return z3.FPVal(float(v), s)
    if isinstance(v, float):
        return z3.FPVal(v, s)
    raise Unsupported("IEEE value from %r" % (v,))


_short = {}


def short_name(n):
    r = _short.get(n)
    if r is None:
        import subprocess
        m = n[1:]
        try:
            d = subprocess.run(["c++filt", m.strip('"')], capture_output=True, text=True).stdout.strip()
        except OSError:
            d = m
        # strip template arguments and parameters
        out, depth = [], 0
        i = 0
        d = d.replace("operator<<", "operator_shl").replace("operator<", "operator_lt").replace("operator>", "operator_gt").replace("operator->", "operator_arrow").replace("operator()", "operator_call")
        for ch in d:
            if ch == "<":
                depth += 1
            elif ch == ">":
                depth -= 1
            elif ch == "(" and depth == 0 and out:
                break
            elif depth == 0:
                out.append(ch)
        s = "".join(out).strip()
        s = s.split(" ")[-1]
        parts = s.split("::")
        r = "::".join(parts[-2:]) if len(parts) > 1 else s
        _short[n] = r or m
        r = _short[n]
    return r
