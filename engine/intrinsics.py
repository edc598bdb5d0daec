"""Contract intrinsics (vf_*), and models of the external functions the verified code may call."""
from fractions import Fraction as Fr
import z3
import lin
import real
from lin import Lin, AND, OR, NOT, toz
from llparse import Unsupported, int_ty, PTR
import execu
from execu import Ptr, NULL, ByteObj, ArrObj, Agg, UNDEF, B2I, PathEnd, THROWN, EndPath


def cstr(eng, st, p):
    if p.obj not in st.objs:
        raise Unsupported("string argument")
    o = st.objs[p.obj]
    out, i = bytearray(), p.off
    while True:
        e = o.ent.get(i)
        b = e[1] if e else 0
        if b == 0:
            return out.decode()
        out.append(b)
        i += 1


def table(eng):
    T = {}

    def intr(*names):
        def deco(fn):
            for n in names:
                T["@" + n] = fn
            return fn
        return deco

    def nd_bv(w):
        def h(e, st, f, ins, a):
            n = cstr(e, st, a[0])
            v = z3.BitVec(n, w)
            e.nondets[n] = ("bv%d" % w, v)
            return v
        return h
    for w in (8, 16, 32, 64):
        T["@vf_u%d" % w] = nd_bv(w)

    @intr("vf_bool")
    def _(e, st, f, ins, a):
        n = cstr(e, st, a[0])
        v = z3.Bool(n)
        e.nondets[n] = ("bool", v)
        return v

    @intr("vf_idx")
    def _(e, st, f, ins, a):
        n = cstr(e, st, a[0])
        s = lin.sym(n, a[1], a[2])
        if n not in e.nondets:
            e.nondets[n] = ("int", s)
        st.pc.extend(lin.sym_facts(n))
        return s

    @intr("vf_real", "vf_signal")
    def _(e, st, f, ins, a):
        n = cstr(e, st, a[0])
        v = real.symbol(n)
        e.has_real = True
        e.assumptions.add("floating-point arithmetic taken as exact real arithmetic")
        e.nondets[n] = ("real", real.ATOMS[real.ATOM_BY_KEY[n]]["z"])
        return v

    @intr("vf_f64")
    def _(e, st, f, ins, a):
        n = cstr(e, st, a[0])
        v = z3.FP(n, z3.Float64())
        e.nondets[n] = ("f64", v)
        return v

    @intr("vf_mem")
    def _(e, st, f, ins, a):
        n = cstr(e, st, a[0])
        count, cell, leaf = a[1], a[2], a[3]
        cnt = lin.scale(count, cell // leaf)
        o = ArrObj(n, cnt, leaf)
        e.arrays[n] = (cnt, leaf, o.base)
        return Ptr(e.new_obj(st, o), 0)

    @intr("vf_buf")
    def _(e, st, f, ins, a):
        n = cstr(e, st, a[0])
        o = ByteObj(n, a[1], "sym", "buffer")
        e.arrays[n] = (a[1], 1, [z3.BitVec("%s[%d]" % (n, i), 8) for i in range(64)])
        return Ptr(e.new_obj(st, o), 0)

    def old(w):
        def h(e, st, f, ins, a):
            p = a[0]
            o = st.objs[p.obj]
            off = p.off
            if isinstance(o, ArrObj):
                i = e.leaf_index(o, off)
                k = w // 8
                if k == o.leaf:
                    return o.init(i)
                if k % o.leaf:
                    raise Unsupported("vf_old width")
                return e.join_bv([o.init(lin.add(i, j)) for j in range(k // o.leaf)], o.leaf)
            if isinstance(off, Lin):
                off = st.conc.get(off.key(), off)
            if isinstance(off, Lin):
                e.enum_off(st, o, off, w // 8)
            return e.join([e.sym_byte(o, off + j) for j in range(w // 8)])
        return h
    for w in (8, 16, 32, 64):
        T["@vf_old%d" % w] = old(w)

    @intr("vf_assume")
    def _(e, st, f, ins, a):
        c = e.asbool(a[0])
        if c is True:
            return None
        if c is False or e.check(st.pc + [c]) == "unsat":
            raise PathEnd()
        st.pc.append(c)

    def ensure(kind):
        def h(e, st, f, ins, a):
            lab = cstr(e, st, a[0])
            v = a[1]
            if v is UNDEF:
                e.oblige(st, False, lab, kind)
                return None
            e.oblige(st, e.asbool(v), lab, kind)
        return h
    T["@vf_ensure"] = ensure("ensure")
    T["@vf_ensure_inv"] = ensure("inv")

    @intr("vf_reach")
    def _(e, st, f, ins, a):
        lab = cstr(e, st, a[0])
        e.reached[lab] = e.reached.get(lab, 0) + 1

    @intr("vf_expect")
    def _(e, st, f, ins, a):
        e.reached.setdefault(cstr(e, st, a[0]), 0)

    @intr("vf_note")
    def _(e, st, f, ins, a):
        st.trace.append((cstr(e, st, a[0]),))

    @intr("vf_tolerance", "vf_wide")
    def _(e, st, f, ins, a):
        return None

    @intr("vf_assume_divisors")
    def _(e, st, f, ins, a):
        e.div_assumed = True

    @intr("vf_symbolic")
    def _(e, st, f, ins, a):
        return True

    # branch-free choice, so that contract text does not multiply paths
    @intr("vf_ite")
    def _(e, st, f, ins, a):
        c = e.asbool(a[0])
        if c is True:
            return a[1]
        if c is False:
            return a[2]
        x, y = a[1], a[2]
        if isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)):
            if isinstance(lin.sub(x, y), int) and lin.sub(x, y) == 0:
                return x
            n = e.fresh("ite")
            s = lin.sym(n)
            st.pc.append(z3.If(c, toz(s) == toz(x), toz(s) == toz(y)))
            lx, ly = lin.interval(x), lin.interval(y)
            lo = None if lx[0] is None or ly[0] is None else min(lx[0], ly[0])
            hi = None if lx[1] is None or ly[1] is None else max(lx[1], ly[1])
            lin.SYMS[n] = (lin.SYMS[n][0], lo, hi)
            return s
        w = 64
        return z3.If(c, e.toint(x, w), e.toint(y, w))

    @intr("vf_and")
    def _(e, st, f, ins, a):
        return AND(e.asbool(a[0]), e.asbool(a[1]))

    @intr("vf_or")
    def _(e, st, f, ins, a):
        return OR(e.asbool(a[0]), e.asbool(a[1]))

    @intr("vf_implies")
    def _(e, st, f, ins, a):
        return OR(NOT(e.asbool(a[0])), e.asbool(a[1]))

    @intr("vf_bytes_eq")
    def _(e, st, f, ins, a):
        p, q, n = a
        r, i = True, 0
        while i < n:
            x, ox = e.access(st, Ptr(p.obj, lin.add(p.off, i)), 1, False, "read")
            y, oy = e.access(st, Ptr(q.obj, lin.add(q.off, i)), 1, False, "read")
            w = 1
            for k in (8, 4, 2):
                if i + k <= n and all(isinstance(o, int) and (o not in m.ent or m.ent[o][0] == k) and
                                      not any(o + j in m.ent for j in range(1, k)) for m, o in ((x, ox), (y, oy))):
                    w = k
                    break
            x, ox = e.access(st, Ptr(p.obj, lin.add(p.off, i)), w, False, "read")
            y, oy = e.access(st, Ptr(q.obj, lin.add(q.off, i)), w, False, "read")
            r = AND(r, e.val_eq(st, e.get(st, x, ox, w), e.get(st, y, oy, w)))
            i += w
        return r

    @intr("vf_req")
    def _(e, st, f, ins, a):
        return e.val_eq(st, a[0], a[1])

    @intr("vf_any_reals")
    def _(e, st, f, ins, a):
        n, p, size, elem, keep = cstr(e, st, a[0]), a[1], a[2], a[3], a[4]
        o = st.wobj(p.obj)
        k = 0
        for i in range(0, size, elem):
            try:
                v = e.get(st, o, p.off + i, elem)
            except Unsupported:
                continue
            if isinstance(v, int) and v == 0:
                v = Fr(0)
            if not isinstance(v, (Fr, real.R)) or (isinstance(v, Fr) and v == keep):
                continue
            nm = "%s%d%d" % (n, k // 10, k % 10)
            k += 1
            x = real.symbol(nm)
            e.has_real = True
            e.nondets[nm] = ("real", real.ATOMS[real.ATOM_BY_KEY[nm]]["z"])
            e.clear(st, o, p.off + i, elem)
            o.ent[p.off + i] = (elem, x)
        e.assumptions.add("floating-point arithmetic taken as exact real arithmetic")

    @intr("vf_record")
    def _(e, st, f, ins, a):
        e.records.append((cstr(e, st, a[0]), a[1]))

    @intr("vf_opaque")
    def _(e, st, f, ins, a):
        return a[0]

    @intr("vf_same_object")
    def _(e, st, f, ins, a):
        return a[0].obj == a[1].obj

    @intr("vf_mem_unwritten")
    def _(e, st, f, ins, a):
        o = st.objs[a[0].obj]
        if isinstance(o, ArrObj):
            return not o.upd
        return not o.ent

    # ---- ghost boolean maps over the cells of an array object: channel -> closure list
    def gkey(e, st, chan, p, cell):
        o = st.objs[p.obj]
        off = p.off
        if isinstance(off, int):
            if off % cell:
                raise Unsupported("ghost pointer inside a cell")
            return (p.obj, chan), off // cell
        if not off.divisible(cell):
            raise Unsupported("ghost pointer inside a cell")
        return (p.obj, chan), off.div(cell)

    def gbase(e, st, k):
        if k not in st.ghost:
            st.ghost[k] = (lambda i: False, [])
        return st.ghost[k]

    @intr("vf_ghost_ring")
    def _(e, st, f, ins, a):
        """channel true exactly on the n cells from cell `first` on, around a ring of cap cells"""
        chan, p, cell, first, n, cap = a

        def base(i):
            return OR(AND(lin.rel("<=", first, i), lin.rel("<", i, lin.add(first, n))),
                      lin.rel("<", i, lin.sub(lin.add(first, n), cap)) if True else False)
        def base2(i):
            return OR(AND(lin.rel("<=", first, i), lin.rel("<", i, lin.add(first, n))),
                      AND(lin.rel("<=", 0, i), lin.rel("<", i, lin.sub(lin.add(first, n), cap))))
        st.ghost[(p.obj, chan)] = (base2, [])

    @intr("vf_ghost_get")
    def _(e, st, f, ins, a):
        chan, p, cell = a
        if p.obj is None or p.obj not in st.objs:
            return False
        k, i = gkey(e, st, chan, p, cell)
        b, u = gbase(e, st, k)
        return execu.read_upds(u, i, b)

    @intr("vf_ghost_set")
    def _(e, st, f, ins, a):
        chan, p, cell, v = a
        if p.obj is None or p.obj not in st.objs:
            e.oblige(st, False, "memory: object operation outside any object in %s" % e.here(st), "memory")
            return None
        k, i = gkey(e, st, chan, p, cell)
        o = st.objs[p.obj]
        cells = lin.scale(i, cell)
        e.oblige(st, AND(lin.rel("<=", 0, cells), lin.rel("<=", lin.add(cells, cell), o.size)), "memory: object inside its memory in %s" % e.here(st), "memory")
        b, u = gbase(e, st, k)
        u.append(("pt", i, e.asbool(v)))

    # ---- libc / runtime
    def mc(e, st, f, ins, a):
        e.memcpy(st, a[0], a[1], a[2])
        return a[0]
    for n in ("llvm.memcpy.p0.p0.i64", "memcpy"):
        T["@" + n] = mc

    def mm(e, st, f, ins, a):
        e.memcpy(st, a[0], a[1], a[2], "memmove", True)
        return a[0]
    for n in ("llvm.memmove.p0.p0.i64", "memmove"):
        T["@" + n] = mm

    @intr("llvm.memset.p0.i64", "memset")
    def _(e, st, f, ins, a):
        p, v, n = a[0], a[1], a[2]
        if isinstance(n, Lin):
            n = e.canon_u(st, n, 64)
            if n == 0 and isinstance(n, int):
                return p
        if isinstance(n, int) and n == 0:
            return p
        o, off = e.access(st, p, n, True, "memset")
        o = st.wobj(p.obj)
        if isinstance(o, ByteObj):
            if not isinstance(n, int):
                raise Unsupported("symbolic memset")
            e.clear(st, o, off, n)
            for i in range(n):
                o.ent[off + i] = (1, v & 255 if isinstance(v, int) else v)
        else:
            if not isinstance(v, int):
                raise Unsupported("symbolic memset value")
            L = o.leaf
            val = z3.BitVecVal(int.from_bytes(bytes([v & 255]) * L, "little"), 8 * L)
            o.upd.append(("rg", e.leaf_index(o, off), e.leaf_index(o, n), lambda i: val))
        return p

    @intr("strlen")
    def _(e, st, f, ins, a):
        return len(cstr(e, st, a[0]))

    for n in ("llvm.lifetime.start.p0", "llvm.lifetime.end.p0", "llvm.donothing", "llvm.assume", "llvm.experimental.noalias.scope.decl"):
        T["@" + n] = lambda e, st, f, ins, a: None

    @intr("__assert_fail")
    def _(e, st, f, ins, a):
        txt = cstr(e, st, a[0])
        e.oblige(st, False, "assert: %s in %s" % (txt, e.here(st)), "assert")
        raise PathEnd()

    @intr("abort", "_ZSt9terminatev", "__clang_call_terminate", "exit", "_Exit", "__cxa_pure_virtual")
    def _(e, st, f, ins, a):
        e.oblige(st, False, "exceptions: the program is not terminated (%s in %s)" % (ins.a[1][1][1:], e.here(st)), "terminate")
        raise PathEnd()

    # exceptions
    @intr("__cxa_allocate_exception")
    def _(e, st, f, ins, a):
        return Ptr(e.new_obj(st, ByteObj("exception", a[0], "undef", "heap")), 0)

    @intr("__cxa_free_exception")
    def _(e, st, f, ins, a):
        st.objs.pop(a[0].obj, None)

    @intr("__cxa_throw")
    def _(e, st, f, ins, a):
        st.excs[a[0].obj] = (a[1].obj, a[2].obj)
        st.exc_ptr = a[0]
        return THROWN

    @intr("__cxa_begin_catch")
    def _(e, st, f, ins, a):
        st.caught.append(a[0])
        return a[0]

    @intr("__cxa_get_exception_ptr")
    def _(e, st, f, ins, a):
        return a[0]

    @intr("__cxa_end_catch")
    def _(e, st, f, ins, a):
        if st.caught:
            st.caught.pop()

    @intr("__cxa_rethrow")
    def _(e, st, f, ins, a):
        st.exc_ptr = st.caught[-1]
        return THROWN

    T["@llvm.eh.typeid.for"] = T["@llvm.eh.typeid.for.p0"] = lambda e, st, f, ins, a: e.typeid(a[0].obj)

    for n in ("_ZNSt12out_of_rangeC1EPKc", "_ZNSt12out_of_rangeD1Ev", "_ZNSt12out_of_rangeC2EPKc", "_ZNSt17bad_function_callD1Ev", "_ZNSt17bad_function_callC1Ev",
              "_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt17bad_function_callD2Ev"):
        T["@" + n] = lambda e, st, f, ins, a: None

    def thrower(ti):
        def h(e, st, f, ins, a):
            p = Ptr(e.new_obj(st, ByteObj("exception", 16, "undef", "heap")), 0)
            st.excs[p.obj] = (ti, None)
            st.exc_ptr = p
            return THROWN
        return h
    T["@_ZSt25__throw_bad_function_callv"] = thrower("@_ZTISt17bad_function_call")
    T["@_ZSt20__throw_out_of_rangePKc"] = thrower("@_ZTISt12out_of_range")
    T["@_ZSt24__throw_out_of_range_fmtPKcz"] = thrower("@_ZTISt12out_of_range")

    # allocation: allowed in contracts (harness side), recorded for R01
    def newop(e, st, f, ins, a):
        if not isinstance(a[0], int):
            raise Unsupported("symbolic allocation size")
        e.allocs.add(e.here(st))
        return Ptr(e.new_obj(st, ByteObj("heap", a[0], "undef", "heap")), 0)
    for n in ("_Znwm", "_Znam", "malloc"):
        T["@" + n] = newop

    def delop(e, st, f, ins, a):
        p = a[0]
        if p.obj is None:
            return None
        if p.obj not in st.objs or st.objs[p.obj].kind != "heap":
            e.oblige(st, False, "memory: free of something not allocated in %s" % e.here(st), "memory")
            return None
        st.objs.pop(p.obj)
    for n in ("_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free"):
        T["@" + n] = delop

    # math
    def m1(fn):
        def h(e, st, f, ins, a):
            v = a[0]
            if v is UNDEF:
                return UNDEF
            if isinstance(v, z3.FPRef):
                raise Unsupported("libm on IEEE values")
            e.has_real = True
            return fn(e, st, v)
        return h

    def lib(names, fn):
        b = names[0].replace("llvm.", "").replace(".f64", "")
        for n in set(names) | {b, b + "f", b + "l", "llvm.%s.f64" % b, "llvm.%s.f32" % b, "llvm.%s.f80" % b}:
            T["@" + n] = m1(fn)

    def fabs(e, st, v):
        return abs(v) if isinstance(v, Fr) else real.fabs(v)
    lib(("fabs", "llvm.fabs.f64", "llvm.fabs.f32", "fabsf"), fabs)

    def positive(e, st, v, what, strict):
        """the argument lies in the function's real domain; otherwise the result is not a real number"""
        ok = (v > 0 if strict else v >= 0) if isinstance(v, Fr) else e.implied(st, real.rel("<" if strict else "<=", Fr(0), v))
        if not ok:
            raise Unsupported("%s of a number that may be negative" % what)

    def sqrt(e, st, v):
        positive(e, st, v, "square root", False)
        return real.fsqrt(v)
    lib(("sqrt", "sqrtf", "sqrtl", "llvm.sqrt.f64"), sqrt)
    lib(("sin", "sinf", "llvm.sin.f64"), lambda e, st, v: real.fsin(v))
    lib(("cos", "cosf", "llvm.cos.f64"), lambda e, st, v: real.fcos(v))
    lib(("exp", "expf", "llvm.exp.f64"), lambda e, st, v: real.fexp(v))
    lib(("sinh", "sinhf"), lambda e, st, v: real.fsinh(v))
    lib(("cosh", "coshf"), lambda e, st, v: real.fcosh(v))
    lib(("tan", "tanf"), lambda e, st, v: real.ftan(v))
    lib(("tanh",), lambda e, st, v: real.div(real.fsinh(v), real.fcosh(v)))
    lib(("expm1",), lambda e, st, v: real.sub(real.fexp(v), Fr(1)))
    lib(("exp2", "llvm.exp2.f64"), lambda e, st, v: real.fpow(Fr(2), v))
    lib(("exp10", "llvm.exp10.f64"), lambda e, st, v: real.fpow(Fr(10), v))
    lib(("asinh",), lambda e, st, v: real.fasinh(v))

    def log(e, st, v, base=None, shift=0):
        v = real.add(v, Fr(shift))
        positive(e, st, v, "logarithm", True)
        r = real.flog(v)
        return real.div(r, real.flog(Fr(base))) if base else r
    lib(("log", "llvm.log.f64"), log)
    lib(("log10", "llvm.log10.f64"), lambda e, st, v: log(e, st, v, 10))
    lib(("log2", "llvm.log2.f64"), lambda e, st, v: log(e, st, v, 2))
    lib(("log1p",), lambda e, st, v: log(e, st, v, None, 1))
    for nm in ("acosh", "atan", "asin", "acos", "atanh", "cbrt"):
        lib((nm, nm + "f"), lambda e, st, v, nm=nm: real.ffun(nm, v))

    @intr("pow", "powf", "powl", "llvm.pow.f64", "llvm.pow.f32")
    def _(e, st, f, ins, a):
        e.has_real = True
        x, y = a
        if not (isinstance(y, Fr) and y.denominator == 1 and abs(y) <= 64):
            positive(e, st, x, "power", True)
        return real.fpow(x, y)

    @intr("llvm.fmuladd.f64", "llvm.fmuladd.f32", "fma", "fmaf", "llvm.fma.f64", "llvm.fma.f32")
    def _(e, st, f, ins, a):
        return real.add(real.mul(a[0], a[1]), a[2])

    @intr("hypot", "hypotf")
    def _(e, st, f, ins, a):
        return real.fsqrt(real.add(real.mul(a[0], a[0]), real.mul(a[1], a[1])))

    return T
