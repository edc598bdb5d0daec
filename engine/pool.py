"""Sampled points satisfying a path condition over the reals.  Only used to show quickly that both sides of a branch are feasible
(declaring a branch feasible is always sound: it only means that the branch is explored)."""
import numpy as np
import z3
import real

M = 6000


class Pool:
    def __init__(self, seed=1):
        self.rng = np.random.default_rng(seed)
        self.cols = {}

    def atom(self, i):
        c = self.cols.get(i)
        if c is None:
            info = real.ATOMS[i]["info"]
            if info is None:
                n = M // 3
                c = np.concatenate([self.rng.uniform(-1.2, 1.2, n), self.rng.uniform(-0.9, 0.9, n), self.rng.uniform(-8, 8, M - 2 * n)])
                self.rng.shuffle(c)
            else:
                with np.errstate(all="ignore"):
                    a = [self.val(x) for x in info[1:]]
                    fn = {"abs": np.abs, "sqrt": np.sqrt, "sin": np.sin, "cos": np.cos, "exp": np.exp, "asinh": np.arcsinh, "log": np.log,
                          "pow": np.power, "tan": np.tan, "atan": np.arctan, "acosh": np.arccosh, "log10": np.log10, "acos": np.arccos, "asin": np.arcsin, "atanh": np.arctanh, "cbrt": np.cbrt}.get(info[0])
                    c = fn(*a) if fn else np.full(M, np.nan)
                    c = np.broadcast_to(c, (M,))
            self.cols[i] = c
        return c

    def poly(self, p):
        r = np.zeros(M)
        for m, c in p.items():
            t = np.full(M, float(c))
            for i, e in m:
                t = t * self.atom(i) ** e
            r = r + t
        return r

    def val(self, a):
        if not isinstance(a, real.R):
            return np.full(M, float(a))
        with np.errstate(all="ignore"):
            r = self.poly(a.n)
            for p, e in a.d.values():
                r = r / self.poly(p) ** e
        return r

    def truth(self, e):
        """(surely true, surely false) masks of a z3 condition, or None"""
        k = e.get_id()
        h = real.REG.get(k)
        if h is not None:
            _, op, d = h
            with np.errstate(all="ignore"):
                v = self.val(d)
                scale = 1e-7
                if op == "<":
                    return v < -scale, v > scale
                z = np.zeros(M, bool)
                return z, np.abs(v) > scale
        if z3.is_not(e):
            t = self.truth(e.arg(0))
            return t and (t[1], t[0])
        if z3.is_and(e) or z3.is_or(e):
            ts = [self.truth(c) for c in e.children()]
            if any(t is None for t in ts):
                return None
            f = np.logical_and if z3.is_and(e) else np.logical_or
            g = np.logical_or if z3.is_and(e) else np.logical_and
            return f.reduce([t[0] for t in ts]), g.reduce([t[1] for t in ts])
        if z3.is_true(e) or z3.is_false(e):
            o = np.ones(M, bool)
            return (o, ~o) if z3.is_true(e) else (~o, o)
        if e.decl().kind() == z3.Z3_OP_IMPLIES:
            a, b = self.truth(e.arg(0)), self.truth(e.arg(1))
            if a is None or b is None:
                return None
            return a[1] | b[0], a[0] & b[1]
        return None
