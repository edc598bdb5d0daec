"""Linear integer terms over named symbols, with interval bounds, and their translation to z3."""
import z3

SYMS = {}      # name -> (z3 const, lo, hi)


def sym(name, lo=None, hi=None):
    if name not in SYMS:
        SYMS[name] = (z3.Int(name), lo, hi)
    return Lin({name: 1}, 0)


def sym_facts(name):
    c, lo, hi = SYMS[name]
    f = []
    if lo is not None:
        f.append(c >= lo)
    if hi is not None:
        f.append(c <= hi)
    return f


class Lin:
    __slots__ = ("t", "c", "_z", "_k")

    def __init__(self, t, c):
        self.t, self.c = t, c
        self._z = self._k = None

    def key(self):
        if self._k is None:
            self._k = (tuple(sorted(self.t.items())), self.c)
        return self._k

    def __eq__(self, o):
        return isinstance(o, Lin) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        s = " + ".join(("%d*%s" % (v, k) if v != 1 else k) for k, v in sorted(self.t.items()))
        return "<%s + %d>" % (s, self.c) if self.c else "<%s>" % s

    def z(self):
        if self._z is None:
            ts = []
            for k, v in sorted(self.t.items()):
                s = SYMS[k][0]
                ts.append(s if v == 1 else v * s)
            e = ts[0] if len(ts) == 1 else z3.Sum(ts)
            self._z = e + self.c if self.c else e
        return self._z

    def syms(self):
        return self.t.keys()

    def interval(self):
        lo = hi = self.c
        for k, v in self.t.items():
            _, a, b = SYMS[k]
            if v < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + v * a
            hi = None if hi is None or b is None else hi + v * b
        return lo, hi

    def divisible(self, d):
        return self.c % d == 0 and all(v % d == 0 for v in self.t.values())

    def div(self, d):
        return mk({k: v // d for k, v in self.t.items()}, self.c // d)

    def subst(self, name, val):
        if name not in self.t:
            return self
        v = self.t[name]
        t = {k: x for k, x in self.t.items() if k != name}
        return add(mk(t, self.c), scale(val, v))


def mk(t, c):
    t = {k: v for k, v in t.items() if v}
    return Lin(t, c) if t else c


def add(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a + b
        return Lin(b.t, a + b.c) if a else b
    if isinstance(b, int):
        return Lin(a.t, a.c + b) if b else a
    t = dict(a.t)
    for k, v in b.t.items():
        t[k] = t.get(k, 0) + v
    return mk(t, a.c + b.c)


def scale(a, n):
    if isinstance(a, int):
        return a * n
    if n == 0:
        return 0
    return Lin({k: v * n for k, v in a.t.items()}, a.c * n)


def sub(a, b):
    return add(a, scale(b, -1))


def toz(a):
    return z3.IntVal(a) if isinstance(a, int) else a.z()


def interval(a):
    return (a, a) if isinstance(a, int) else a.interval()


def subst(a, name, val):
    return a if isinstance(a, int) else a.subst(name, val)


def has(a, name):
    return not isinstance(a, int) and name in a.t


def rel(op, a, b):
    """a op b as a bool or a z3 formula"""
    d = sub(a, b)
    if isinstance(d, int):
        return {"==": d == 0, "!=": d != 0, "<": d < 0, "<=": d <= 0}[op]
    lo, hi = d.interval()
    if op == "<":
        if hi is not None and hi < 0:
            return True
        if lo is not None and lo >= 0:
            return False
        return d.z() < 0
    if op == "<=":
        if hi is not None and hi <= 0:
            return True
        if lo is not None and lo > 0:
            return False
        return d.z() <= 0
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return op == "!="
    return d.z() == 0 if op == "==" else d.z() != 0


def AND(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def OR(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def NOT(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)
