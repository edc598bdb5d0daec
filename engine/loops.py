"""Natural loops, and inductive summaries of loops with an unbounded trip count."""
from llparse import Unsupported


def cfg(fn):
    if fn.loops is None:
        fn.loops = _analyse(fn)
    return fn.loops


def succs(blk):
    t = blk.insts[-1]
    if t.op == "jmp":
        return [t.a[0]]
    if t.op == "br":
        return [t.a[1], t.a[2]]
    if t.op == "switch":
        return [t.a[2]] + [l for _, l in t.a[3]]
    if t.op == "call" and t.a[3] is not None:
        return [t.a[3], t.a[4]]
    return []


def _analyse(fn):
    """header -> set of blocks"""
    succ = {b: succs(k) for b, k in fn.blocks.items()}
    pred = {b: [] for b in succ}
    for b, ss in succ.items():
        for s in ss:
            pred[s].append(b)
    # back edges by DFS
    color, back = {}, []
    stack = [(fn.entry, iter(succ[fn.entry]))]
    color[fn.entry] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if color.get(s) == 1:
                back.append((b, s))
            elif s not in color:
                color[s] = 1
                stack.append((s, iter(succ[s])))
                break
        else:
            color[b] = 2
            stack.pop()
    loops = {}
    for b, h in back:
        body = loops.setdefault(h, {h})
        w = [b]
        while w:
            x = w.pop()
            if x not in body:
                body.add(x)
                w.extend(pred[x])
    return loops


def innermost(fn, blk):
    best = None
    for h, body in cfg(fn).items():
        if blk in body and (best is None or len(body) < len(cfg(fn)[best])):
            best = h
    return best



# ------------------------------------------------------------------------------------------------ inductive summaries
class Ctx:
    """an active summary run: states reaching the header again end as "back", states leaving the loop as "exit" """
    __slots__ = ("depth", "fn", "header", "body")

    def __init__(self, depth, fn, header, body):
        self.depth, self.fn, self.header, self.body = depth, fn, header, body


def at_block(eng, st, f):
    """called whenever a frame enters a block; ends the path at the boundary of an active summary, or starts a summary"""
    if st.loopctx:
        c = st.loopctx[-1]
        d = len(st.frames)
        if d < c.depth:
            return "#exit"
        if d == c.depth and f.fn is c.fn:
            if f.blk.name == c.header:
                return "#back"
            if f.blk.name not in c.body:
                return "#exit"
    if (f.fn.name, f.blk.name) in eng.summarise:
        return summarise(eng, st, f)
    return None


def at_ret(eng, st):
    if st.loopctx and len(st.frames) < st.loopctx[-1].depth:
        return "#exit"
    return None


def is_num(v):
    return isinstance(v, (int, Lin)) and not isinstance(v, bool)


class Bail(Unsupported):
    pass


def diff(s0, s1):
    """scalar locations and arrays/ghost maps whose value differs between two states at the header"""
    import execu
    locs, arrs, ghosts = {}, set(), set()
    for oid, o in s0.objs.items():
        n = s1.objs.get(oid)
        if n is None:
            raise Bail("loop ends the lifetime of an outer object")
        if n is o:
            continue
        if isinstance(o, execu.ArrObj):
            if len(n.upd) != len(o.upd) or n.base is not o.base or any(a is not b for a, b in zip(n.upd, o.upd)):
                arrs.add(oid)
            continue
        for off in set(o.ent) | set(n.ent):
            a, b = o.ent.get(off), n.ent.get(off)
            if a is not None and b is not None and a[0] == b[0] and same(a[1], b[1]):
                continue
            if b is None or (a is not None and a[0] != b[0]):
                raise Bail("loop changes the layout of a variable")
            locs[(oid, off)] = b[0]
    for k in set(s0.ghost) | set(s1.ghost):
        a, b = s0.ghost.get(k), s1.ghost.get(k)
        if a is None:
            if b[1]:
                ghosts.add(k)
        elif a[0] is not b[0] or len(a[1]) != len(b[1]) or any(x is not y for x, y in zip(a[1], b[1])):
            ghosts.add(k)
    for oid, o in s1.objs.items():
        if oid not in s0.objs and not (isinstance(oid, str) and isinstance(o, execu.ByteObj)):
            if getattr(o, "kind", "") != "stack":
                raise Bail("loop creates an object that outlives an iteration")
    return locs, arrs, ghosts


def same(a, b):
    import execu
    if a is b:
        return True
    if isinstance(a, execu.Ptr) and isinstance(b, execu.Ptr):
        return a.obj == b.obj and same(a.off, b.off)
    if is_num(a) and is_num(b):
        d = lin.sub(a, b)
        return isinstance(d, int) and d == 0
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    return False


class Form:
    """v(k) = v0 + c*k, plus shift once c*k has carried it past the threshold t"""

    def __init__(self, obj, v0, w):
        self.obj, self.v0, self.w = obj, v0, w
        self.c, self.shift, self.t, self.havoc = None, None, None, False

    def lineq(self, k):
        return lin.add(self.v0, lin.scale(k, self.c or 0))

    def wrapped(self, k):
        """condition under which the value at k has been shifted"""
        if self.shift is None:
            return False
        x = self.lineq(k)
        t = lin.add(self.t, self.c)
        return lin.rel("<=", t, x) if self.c > 0 else lin.rel("<=", x, t)

    def at(self, k, wrapped):
        x = self.lineq(k)
        return lin.add(x, self.shift) if wrapped else x


def summarise(eng, st, f):
    if f.blk.phis:
        raise Bail("loop header with phis")
    fn, header = f.fn, f.blk.name
    body = cfg(fn)[header]
    ctx = Ctx(len(st.frames), fn, header, body)
    key = (fn.name, header)
    kn = eng.fresh("k")
    k = lin.sym(kn, 0, None)
    k1 = lin.add(k, 1)
    kz = toz(k)
    forms, arrs, ghosts = {}, set(), set()
    ev = eng.obl_on, eng.summ_cmps
    cands, entered = [], []

    def start(case, hav, content):
        """a state at the header after k iterations; case: wrapped flags of the ring locations"""
        s = st.copy()
        s.frames[-1].visits = {}
        s.loopctx.append(ctx)
        s.pc.append(kz >= 0)
        s.pc.extend(entered)
        for loc, fm in forms.items():
            o = s.wobj(loc[0])
            if fm.havoc:
                if fm.havoc == "undef":
                    o.ent.pop(loc[1], None)
                else:
                    o.ent[loc[1]] = (fm.w, hav[loc])
                continue
            if fm.shift is not None:
                w = case[loc]
                c = fm.wrapped(k)
                c = c if w else NOT(c)
                if c is False:
                    return None
                if c is not True:
                    s.pc.append(c)
            v = fm.at(k, case.get(loc, False))
            if fm.obj is not False:
                v = execu.Ptr(fm.obj, v)
            o.ent[loc[1]] = (fm.w, v)
        for c in cands:
            s.pc.append(lin.rel("<=", 0, c)) if not isinstance(c, int) else None
        for oid in arrs:
            o = s.wobj(oid)
            if content is None:
                hf = z3.Function(eng.fresh("havoc"), z3.IntSort(), z3.BitVecSort(8 * o.leaf))
                havocs.append(hf)
                o.upd = [("rg", 0, o.count, lambda i, hf=hf: hf(toz(i)))]
            else:
                o.upd = list(st.objs[oid].upd) + [("fn", content[("a", oid)], k)]
        for g in ghosts:
            if content is None:
                hf = z3.Function(eng.fresh("havoc"), z3.IntSort(), z3.BoolSort())
                havocs.append(hf)
                s.ghost[g] = (lambda i, hf=hf: hf(toz(i)), [])
            else:
                b, u = st.ghost.get(g, (FALSE, []))
                s.ghost[g] = (b, list(u) + [("fn", content[("g", g)], k)])
        return s

    def cases():
        ring = [l for l, fm in forms.items() if fm.shift is not None and not fm.havoc]
        out = [{}]
        for l in ring:
            out = [dict(c, **{}) for c in out for _ in (0, 1)]
            for i, c in enumerate(out):
                c[l] = bool(i & 1)
        return out

    def runbody(starts):
        back, ext = [], []

        def on_end(s, how):
            if how == "#back":
                back.append(s)
            elif how == "#exit":
                ext.append(s)
            elif how == "#summ":
                pass
            else:
                raise Bail("path ends inside the loop")
        eng.explore([s for s in starts if s is not None], on_end)
        return back, ext

    # ---- pass 1: discover what an iteration changes
    havocs = []
    eng.obl_on, eng.summ_cmps = "skip", []
    try:
        for rnd in range(8):
            havocs = []
            eng.summ_cmps = []
            hav = {l: havoc_value(eng, fm) for l, fm in forms.items() if fm.havoc and fm.havoc != "undef"}
            starts = [start(c, hav, None) for c in cases()]
            bases = [s.copy() for s in starts if s is not None]
            back = []
            pairs = []
            for s, b0 in zip([x for x in starts if x is not None], bases):
                bk, _ = runbody([s])
                for b in bk:
                    pairs.append((b0, b))
            changed = False
            for b0, b in pairs:
                if len(b.caught) != len(st.caught):
                    raise Bail("loop with pending exceptions")
                locs, ar, gh = diff(b0, b)
                if not ar <= arrs or not gh <= ghosts:
                    arrs |= ar
                    ghosts |= gh
                    changed = True
                for loc, w in locs.items():
                    if loc not in forms:
                        v0 = st.objs[loc[0]].ent.get(loc[1], (w, execu.UNDEF))[1]
                        obj = False
                        if isinstance(v0, execu.Ptr):
                            obj, v0 = v0.obj, v0.off
                        fm = forms[loc] = Form(obj, v0, w)
                        v1 = b.objs[loc[0]].ent[loc[1]][1]
                        if v0 is execu.UNDEF:
                            fm.havoc = "undef"
                        elif not is_num(v0):
                            fm.havoc = kind_of(v0, w)
                        changed = True
            if changed:
                continue
            # fit closed forms
            for loc, fm in forms.items():
                if fm.havoc:
                    continue
                deltas, resets = {}, []
                for b0, b in pairs:
                    a0 = num_of(b0.objs[loc[0]].ent[loc[1]][1], fm.obj)
                    v = num_of(b.objs[loc[0]].ent[loc[1]][1], fm.obj)
                    if v is None:
                        raise Bail("loop variable changes its object")
                    d = lin.sub(v, a0)
                    if isinstance(d, int):
                        deltas.setdefault(d, []).append(b)
                    else:
                        resets.append((v, a0, d, b))
                if fm.c is None:
                    cs = [d for d in deltas if d]
                    if len(cs) == 1 and 0 not in deltas or (len(cs) == 1 and len(deltas) == 1):
                        fm.c = cs[0]
                        changed = True
                    elif not cs and resets:
                        raise Bail("loop variable without a regular step")
                    elif len(cs) == 1:
                        raise Bail("loop variable steps irregularly")
                    else:
                        # constant shift: two integer deltas (fixed-size ring)
                        raise Bail("loop variable without a regular step")
                elif resets and fm.shift is None:
                    v, a0, d, b = resets[0]
                    fit = None
                    for cmp in b_cmps(eng, b):
                        # comparison known to hold with equality on the reset path: a0 == X
                        x = solve_for(cmp, a0, fm, kn)
                        if x is None:
                            continue
                        if eng.implied(b, lin.rel("==", cmp, 0)) or not lin.has(lin.sub(d, 0), kn):
                            shift = lin.sub(v, lin.add(x, fm.c)) if lin.has(d, kn) else lin.sub(d, fm.c)
                            if lin.has(shift, kn):
                                continue
                            fit = (x, shift)
                            break
                    if fit is None:
                        raise Bail("no closed form for a wrapping loop variable")
                    fm.t, fm.shift = fit
                    changed = True
            if not changed:
                break
        else:
            raise Bail("loop effects do not stabilise")
        # candidate bounds, filtered inductively
        raw = {}
        for d in eng.summ_cmps:
            for c in (d, lin.scale(d, -1)):
                if lin.has(c, kn):
                    raw[c.key()] = c
                    if c.c < 0:       # the weaker bound without the constant: a loop that stops short of zero
                        w = lin.sub(c, c.c)
                        raw[w.key()] = w
        cs = []
        for c in raw.values():
            c0 = lin.subst(c, kn, 0)
            if all(n in lin.SYMS for n in c.t) and (c0 if isinstance(c0, int) else 0) >= 0 and eng.implied(st, lin.rel("<=", 0, c0)):
                cs.append(c)
        while True:
            bad = set()
            for b0, b in pairs:
                pc = b.pc + [lin.rel("<=", 0, c) for c in cs if lin.rel("<=", 0, c) is not True]
                for c in cs:
                    n1 = lin.rel("<=", 0, lin.subst(c, kn, k1))
                    if n1 is True:
                        continue
                    if eng.check(pc, NOT(n1)) != "unsat":
                        bad.add(c.key())
            if not bad:
                break
            cs = [c for c in cs if c.key() not in bad]
        cands.extend(cs)
        # run the iteration once more under the bounds, so that decisions of the body are not clouded by values out of reach
        starts = [s for s in (start(c, hav, None) for c in cases()) if s is not None]
        pairs, fresh0 = [], eng.fresh_n
        for s in starts:
            if eng.check(s.pc) == "unsat":
                continue
            b0 = s.copy()
            pairs += [(b0, b) for b in runbody([s])[0]]
        # effects of one iteration on arrays and ghost maps, per path
        content = {}
        for what, oids in (("a", arrs), ("g", ghosts)):
            for oid in oids:
                effs = []
                for b0, b in pairs:
                    u0 = b0.objs[oid].upd if what == "a" else b0.ghost[oid][1]
                    u1 = b.objs[oid].upd if what == "a" else b.ghost[oid][1]
                    new = u1[len(u0):]
                    cond = [c for c in b.pc[len(st.pc):] if not any(same(c, lin.rel("<=", 0, x)) for x in cands)]
                    effs.append((cond, coalesce(new)))
                content[(what, oid)] = closure(eng, effs, kn, havocs, fresh0)
        # after k > 0 iterations, some path through the body was taken in the iteration before: its conditions held at k-1
        taken = []
        for b0, b in pairs:
            cs = [c for c in b.pc[len(st.pc):] if isinstance(c, z3.ExprRef) and not mentions(c, havocs) and not newer(c, fresh0)
                  and not any(same(c, lin.rel("<=", 0, x)) for x in cands)]
            taken.append(z3.And(cs) if cs else z3.BoolVal(True))
        if taken and len(taken) <= 8:
            entered.append(z3.simplify(z3.Or(kz == 0, z3.substitute(z3.Or(taken), (kz, kz - 1)))))
    finally:
        eng.obl_on, eng.summ_cmps = ev

    # ---- pass 2: the summary is inductive, and every obligation of the body holds at every iteration
    hav = {l: havoc_value(eng, fm) for l, fm in forms.items() if fm.havoc and fm.havoc != "undef"}
    exits = []
    for case in cases():
        s = start(case, hav, content)
        if s is None or eng.check(s.pc) == "unsat":
            continue
        back, ext = runbody([s])
        for b in back:
            locs, ar, gh = diff(st, b)
            if not ar <= arrs or not gh <= ghosts or not set(locs) <= set(forms):
                raise Bail("summary misses an effect of the loop")
            for loc, fm in forms.items():
                if fm.havoc:
                    continue
                v = num_of(b.objs[loc[0]].ent[loc[1]][1], fm.obj)
                if v is None:
                    raise Bail("loop variable changes its object")
                w = fm.wrapped(k1)
                ok = OR(AND(NOT(w), lin.rel("==", v, fm.at(k1, False))), AND(w, lin.rel("==", v, fm.at(k1, True))) if fm.shift is not None else False)
                if not eng.implied(b, ok):
                    raise Bail("closed form of a loop variable is not inductive")
            for c in cands:
                if not eng.implied(b, lin.rel("<=", 0, lin.subst(c, kn, k1))):
                    raise Bail("loop bound is not inductive")
            for oid in arrs:
                i = lin.sym(eng.fresh("cell"), 0, None)
                o, o0 = b.objs[oid], st.objs[oid]
                want = execu.read_upds(list(o0.upd) + [("fn", content[("a", oid)], k1)], i, o0.init)
                got = o.read(i)
                if not eng.implied(b, OR(NOT(AND(lin.rel("<=", 0, i), lin.rel("<", i, o0.count))), eng.val_eq(b, got, want))):
                    raise Bail("array summary is not inductive")
            for g in ghosts:
                i = lin.sym(eng.fresh("cell"), 0, None)
                bb, uu = st.ghost.get(g, (FALSE, []))
                want = execu.read_upds(list(uu) + [("fn", content[("g", g)], k1)], i, bb)
                got = execu.read_upds(b.ghost[g][1], i, b.ghost[g][0])
                want, got = eng.zb(want), eng.zb(got)
                if not eng.implied(b, OR(toz(i) < 0, want == got)):
                    raise Bail("ghost summary is not inductive")
        exits.extend(ext)
    eng.summarised.add(key)
    if not any((fm.c or 0) * (1) for fm in forms.values() if not fm.havoc):
        eng.assumptions.add("termination of the loop in %s" % execu.short_name(fn.name))
    for x in exits:
        x.loopctx.pop()
        # a loop of an outer summary may end here as well
        r = at_block_exit(eng, x)
        eng.cur_work[-1].append(x) if r is None else eng.cur_end[-1](x, r)
    return "#summ"


def at_block_exit(eng, x):
    if x.loopctx:
        c = x.loopctx[-1]
        d = len(x.frames)
        f = x.frames[-1]
        if d < c.depth:
            return "#exit"
        if d == c.depth and f.fn is c.fn and f.ip == 0:
            if f.blk.name == c.header:
                return "#back"
            if f.blk.name not in c.body:
                return "#exit"
    return None


def FALSE(i):
    return False


def num_of(v, obj):
    if obj is False:
        return v if is_num(v) else None
    return v.off if isinstance(v, execu.Ptr) and v.obj == obj else None


def kind_of(v, w):
    if isinstance(v, z3.BitVecRef):
        return "bv"
    if isinstance(v, execu.B2I):
        return "b2i"
    raise Bail("loop variable of an unsupported kind")


def havoc_value(eng, fm):
    n = eng.fresh("hv")
    if fm.havoc == "bv":
        return z3.BitVec(n, 8 * fm.w)
    return execu.B2I(z3.Bool(n), 8)


def b_cmps(eng, b):
    return list({(c.key() if not isinstance(c, int) else c): c for c in eng.summ_cmps if not isinstance(c, int)}.values())


def solve_for(cmp, a0, fm, kn):
    """x with no k such that cmp == 0 iff a0 == x, from a linear comparison of the loop variable"""
    for s in (1, -1):
        for j in (0, 1):
            # cmp = s*(a0 + j*c - x)
            x = lin.sub(lin.add(a0, j * fm.c), lin.scale(cmp, s))
            x = lin.sub(x, j * fm.c)
            if not lin.has(x, kn):
                return x
    return None


def coalesce(upds):
    out = []
    for u in upds:
        if u[0] == "rg" and isinstance(u[2], int) and u[2] > 0 and len(upds) == 1:
            return [u]     # one block per iteration
        if u[0] != "pt":
            raise Bail("bulk update inside a loop")
        out = [x for x in out if not same(x[1], u[1])] + [u]
    return out


def mentions(e, decls):
    seen, w = set(), [e]
    while w:
        x = w.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if any(x.decl().eq(d) for d in decls):
                return True
            w.extend(x.children())
    return False


def newer(e, n0):
    """does e mention a symbol introduced after the counter stood at n0?"""
    seen, w = set(), [e]
    while w:
        x = w.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in x.decl().name():
            t = x.decl().name().rsplit("!", 1)[1]
            if t.isdigit() and int(t) > n0:
                return True
        w.extend(x.children())
    return False


def closure(eng, effs, kn, havocs, fresh0):
    """content after k iterations as a list of (inverse of the index, condition, value): the largest matching iteration wins"""
    kz = lin.SYMS[kn][0]
    table = []
    for conds, ups in effs:
        for c in conds:
            if isinstance(c, z3.ExprRef) and mentions(c, havocs):
                raise Bail("loop decision depends on what the loop writes")
            if isinstance(c, z3.ExprRef) and newer(c, fresh0):
                raise Bail("loop decision depends on an intermediate value")
        for u in ups:
            idx, val, blk, fn = u[1], u[2], 1, None
            if u[0] == "rg":
                blk, fn = u[2], u[3]
                val = fn(lin.sym("cell of a block", 0, None))
            if isinstance(idx, int) or not idx.t.get(kn):
                raise Bail("loop writes one cell again and again")
            if isinstance(val, z3.ExprRef) and mentions(val, havocs):
                raise Bail("loop value depends on what the loop writes")
            if isinstance(val, z3.ExprRef) and newer(val, fresh0):
                raise Bail("loop value depends on an intermediate value")
            s = idx.t[kn]
            if abs(s) < blk:
                raise Bail("the blocks a loop writes overlap")
            a0 = lin.subst(idx, kn, 0)
            table.append((a0, s, [c for c in conds if isinstance(c, z3.ExprRef)], val if fn is None else fn, blk))

    def content(i, k, below):
        best = None
        res = below(i)
        jbest = z3.IntVal(-1)
        for a0, s, conds, val, blk in table:
            if callable(val):
                val = val(i)
            if blk > 1:
                # the block that covers i: i = a0 + s*j + r, 0 <= r < blk
                d = toz(lin.sub(i, a0))
                jz = d / abs(s) if s > 0 else -(d / abs(s))
                m = [d % abs(s) < blk]
            elif s in (1, -1):
                jz = toz(lin.scale(lin.sub(i, a0), s))
                m = []
            else:
                d = toz(lin.scale(lin.sub(i, a0), 1 if s > 0 else -1))
                jz = d / abs(s)
                m = [d % abs(s) == 0]
            m = m + [jz >= 0, jz < toz(k)] + [z3.substitute(c, (kz, jz)) for c in conds]
            v = z3.substitute(val, (kz, jz)) if isinstance(val, z3.ExprRef) else val
            take = z3.And(*(m + [jz > jbest]))
            res = execu.vite(take, v, res)
            jbest = z3.If(take, jz, jbest)
        return res
    return content


import z3
import lin
from lin import Lin, AND, OR, NOT, toz
import execu
