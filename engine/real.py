"""Exact real arithmetic terms: rational functions over named atoms with algebraic side relations.

A value is a Fraction or an R = num / prod(den_i ^ e_i), num and den_i sparse polynomials with rational coefficients.
Atoms: symbolic inputs and applications of sqrt/sin/cos/... ; relations rewrite atom powers (sqrt(x)^2 = x,
sin^2 = 1 - cos^2)."""
import math
from fractions import Fraction as Fr
import z3

ATOMS = []        # index -> dict(name, z, square (Poly or None), info)
ATOM_BY_KEY = {}
STATS = {"zero_tests": 0}


def reset():
    ATOMS.clear()
    ATOM_BY_KEY.clear()
    _DEFS.clear()
    REG.clear()
    _INFO.clear()
    _NUM.clear()


def atom(key, square=None, info=None):
    i = ATOM_BY_KEY.get(key)
    if i is None:
        i = len(ATOMS)
        ATOM_BY_KEY[key] = i
        ATOMS.append({"name": str(key) if isinstance(key, str) else "t%d" % i, "z": z3.Real("r%d!%s" % (i, key if isinstance(key, str) else "")),
                      "square": square, "info": info, "key": key})
    return i


# ---- polynomials: dict mono -> Fraction ; mono = tuple of (atom, exp) sorted by atom
ONE_M = ()


def pconst(c):
    return {ONE_M: Fr(c)} if c else {}


def patom(i):
    return {((i, 1),): Fr(1)}


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(a, k):
    return {m: c * k for m, c in a.items()} if k else {}


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    r, i, j = [], 0, 0
    while i < len(a) and j < len(b):
        x, y = a[i], b[j]
        if x[0] == y[0]:
            r.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            r.append(x)
            i += 1
        else:
            r.append(y)
            j += 1
    r.extend(a[i:])
    r.extend(b[j:])
    return tuple(r)


def _encode(p, pos):
    """polynomial with packed exponents (12 bits per atom) and integer coefficients: ([(key, coeff)], denominator)"""
    den = math.lcm(*[c.denominator for c in p.values()])
    out = []
    for m, c in p.items():
        k = 0
        for i, e in m:
            k |= e << pos[i]
        out.append((k, c.numerator * (den // c.denominator)))
    return out, den


def _decode(r, den, atoms):
    out = {}
    n = len(atoms)
    cache = {}
    half = 12 * (n // 2)
    mask = (1 << half) - 1

    def part(k, base):
        key = (k, base)
        t = cache.get(key)
        if t is None:
            l = []
            j = base
            q = k
            while q:
                e = q & 0xfff
                if e:
                    l.append((atoms[j], e))
                q >>= 12
                j += 1
            t = cache[key] = tuple(l)
        return t
    for k, c in r.items():
        if c:
            out[part(k & mask, 0) + part(k >> half, n // 2)] = Fr(c, den) if den != 1 else Fr(c)
    return out


def _rawmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) < 48:
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mmul(m1, m2)
                r[m] = r.get(m, 0) + c1 * c2
        return {m: c for m, c in r.items() if c}
    atoms = sorted({i for p in (a, b) for m in p for i, _ in m})
    pos = {x: 12 * k for k, x in enumerate(atoms)}
    A, da = _encode(a, pos)
    B, db = _encode(b, pos)
    r = {}
    get = r.get
    for k1, c1 in A:
        for k2, c2 in B:
            k = k1 + k2
            r[k] = get(k, 0) + c1 * c2
    return _decode(r, da * db, atoms)


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1 and ONE_M in a:
        return pscale(b, a[ONE_M])
    if len(b) == 1 and ONE_M in b:
        return pscale(a, b[ONE_M])
    return preduce(_rawmul(a, b))


def preduce(p):
    while True:
        hit = None
        for m in p:
            for i, e in m:
                if e >= 2 and ATOMS[i]["square"] is not None:
                    hit = i
                    break
            if hit is not None:
                break
        if hit is None:
            return p
        sq = ATOMS[hit]["square"]
        keep, groups = {}, {}
        for m, c in p.items():
            e = 0
            for i, x in m:
                if i == hit:
                    e = x
            if e >= 2:
                rest = tuple((i, x) for i, x in m if i != hit)
                if e % 2:
                    rest = mmul(rest, ((hit, 1),))
                groups.setdefault(e // 2, {})[rest] = c
            else:
                keep[m] = c
        for e, g in groups.items():
            q = g
            for _ in range(e):
                q = _rawmul(q, sq)
            keep = padd(keep, q)
        p = keep


def ppow(a, n):
    r = pconst(1)
    for _ in range(n):
        r = pmul(r, a)
    return r


def pkey(p):
    return tuple(sorted(p.items()))


def mkey(m):
    # lexicographic order with lower atom index most significant
    return tuple((-i, e) for i, e in m)


def pdivexact(a, b):
    """exact multivariate division a / b, or None"""
    if not b:
        return None
    # order monomials lex by exponent vectors over the atoms occurring
    atoms = sorted({i for p in (a, b) for m in p for i, _ in m})
    if any(ATOMS[i]["square"] is not None for i in atoms):
        return None
    pos = {x: k for k, x in enumerate(atoms)}
    n = len(atoms)

    def vec(m):
        v = [0] * n
        for i, e in m:
            v[pos[i]] = e
        return tuple(v)
    A = {vec(m): c for m, c in a.items()}
    B = {vec(m): c for m, c in b.items()}
    lb = max(B)
    cb = B[lb]
    Q = {}
    steps = 0
    while A:
        la = max(A)
        d = tuple(x - y for x, y in zip(la, lb))
        if min(d, default=0) < 0:
            return None
        q = A[la] / cb
        Q[d] = q
        for m, c in B.items():
            mm = tuple(x + y for x, y in zip(m, d))
            v = A.get(mm, 0) - q * c
            if v:
                A[mm] = v
            else:
                A.pop(mm, None)
        steps += 1
        if steps > 3000:
            return None
    return {tuple((atoms[k], e) for k, e in enumerate(v) if e): c for v, c in Q.items()}


def pmonic(p):
    """-> (leading coefficient, monic version) for canonical denominator factors"""
    m = max(p, key=lambda m: (len(m), m))
    c = p[m]
    return (c, p) if c == 1 else (c, {k: v / c for k, v in p.items()})


class R:
    __slots__ = ("n", "d", "_z")     # d: dict pkey -> (poly, exp)

    def __init__(self, n, d):
        self.n, self.d = n, d
        self._z = None

    def __repr__(self):
        s = pstr(self.n)
        if self.d:
            s = "(%s)/(%s)" % (s, "*".join("(%s)^%d" % (pstr(p), e) for p, e in self.d.values()))
        return s


def pstr(p):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items()):
        t = "*".join(ATOMS[i]["name"] + ("^%d" % e if e > 1 else "") for i, e in m)
        out.append(("%s*%s" % (c, t) if c != 1 else t) if t else str(c))
    s = " + ".join(out)
    return s if len(s) < 400 else s[:400] + "..."


def mk(n, d):
    if not n:
        return Fr(0)
    if not d and len(n) == 1 and ONE_M in n:
        return n[ONE_M]
    return R(n, d)


def lift(a):
    return R(pconst(a), {}) if isinstance(a, (int, Fr)) else a


def neg(a):
    if isinstance(a, (int, Fr)):
        return -a
    return R(pscale(a.n, -1), a.d)


def dmul(d):
    r = pconst(1)
    for p, e in d.values():
        r = pmul(r, ppow(p, e))
    return r


def add(a, b):
    if isinstance(a, (int, Fr)) and isinstance(b, (int, Fr)):
        return Fr(a) + b
    a, b = lift(a), lift(b)
    if not a.d and not b.d:
        return mk(padd(a.n, b.n), {})
    D = dict(a.d)
    for k, (p, e) in b.d.items():
        if k not in D or D[k][1] < e:
            D[k] = (p, e)
    an, bn = a.n, b.n
    for k, (p, e) in D.items():
        ea = a.d[k][1] if k in a.d else 0
        eb = b.d[k][1] if k in b.d else 0
        if e > ea:
            an = pmul(an, ppow(p, e - ea))
        if e > eb:
            bn = pmul(bn, ppow(p, e - eb))
    return cancel(padd(an, bn), D)


def cancel(n, D):
    if not n:
        return Fr(0)
    if not D:
        return mk(n, D)
    D2 = {}
    for k, (p, e) in D.items():
        while e > 0:
            if len(p) == 1:
                q = _monodiv(n, p)
            else:
                q = pdivexact(n, p) if len(n) < 400 else None
            if q is None:
                break
            n = q
            e -= 1
        if e:
            D2[k] = (p, e)
    return mk(n, D2)


def _monodiv(n, p):
    (m, c), = p.items()
    need = dict(m)
    r = {}
    for mm, cc in n.items():
        d = dict(mm)
        for i, e in need.items():
            if d.get(i, 0) < e:
                return None
            d[i] -= e
        r[tuple(sorted((i, e) for i, e in d.items() if e))] = cc / c
    return r


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if isinstance(a, (int, Fr)) and isinstance(b, (int, Fr)):
        return Fr(a) * b
    if isinstance(a, (int, Fr)):
        a, b = b, a
    if isinstance(b, (int, Fr)):
        if b == 0:
            return Fr(0)
        return R(pscale(a.n, Fr(b)), a.d) if b != 1 else a
    D = dict(a.d)
    for k, (p, e) in b.d.items():
        D[k] = (p, e + D[k][1]) if k in D else (p, e)
    return cancel(pmul(a.n, b.n), D)


def inv(a):
    """1/a (a assumed non-zero)"""
    if isinstance(a, (int, Fr)):
        return 1 / Fr(a)
    c, m = pmonic(a.n)
    n = pscale(dmul(a.d), 1 / c)
    # split monomial content of the new denominator
    D = {}
    ms = None
    for mm in m:
        dd = dict(mm)
        ms = dd if ms is None else {i: min(e, dd[i]) for i, e in ms.items() if i in dd}
    if ms:
        cont = tuple(sorted(ms.items()))
        m = _monodiv(m, {cont: Fr(1)})
        for i, e in cont:
            p = patom(i)
            D[pkey(p)] = (p, e)
    if not (len(m) == 1 and ONE_M in m):
        D[pkey(m)] = (m, 1)
    else:
        n = pscale(n, 1 / m[ONE_M])
    return cancel(n, D)


def div(a, b):
    return mul(a, inv(b))


def is_zero(a):
    STATS["zero_tests"] += 1
    if isinstance(a, (int, Fr)):
        return a == 0
    return not a.n


def key(a):
    if isinstance(a, (int, Fr)):
        return ("c", Fr(a))
    return (pkey(a.n), tuple(sorted((k, e) for k, (p, e) in a.d.items())))


def from_atom(i):
    return R(patom(i), {})


def symbol(name):
    return from_atom(atom(name))


def zpoly(p):
    ts = []
    for m, c in p.items():
        fs = []
        for i, e in m:
            z = ATOMS[i]["z"]
            fs.extend([z] * e)
        k = z3.RealVal(str(c))
        if not fs:
            ts.append(k)
        else:
            t = fs[0]
            for f in fs[1:]:
                t = t * f
            ts.append(t if c == 1 else k * t)
    if not ts:
        return z3.RealVal(0)
    return ts[0] if len(ts) == 1 else z3.Sum(ts)


def signexpr(a):
    """z3 term with the same sign as a (denominators non-zero)"""
    t = zpoly(a.n)
    for p, e in a.d.values():
        if e % 2:
            t = t * zpoly(p)
    return t


REG = {}      # z3 id -> (expression, "<" or "==", difference): what a condition means


def _posnorm(d):
    """d scaled by a positive constant, so that equal conditions are the same term"""
    c = abs(d.n[max(d.n, key=lambda m: (len(m), m))])
    return d if c == 1 else R(pscale(d.n, 1 / c), d.d)


def rel(op, a, b):
    if op == "<=":
        r = rel("<", b, a)
        return (not r) if isinstance(r, bool) else z3.Not(r)
    if op == "!=":
        r = rel("==", a, b)
        return (not r) if isinstance(r, bool) else z3.Not(r)
    d = sub(a, b)
    if isinstance(d, Fr):
        return d == 0 if op == "==" else d < 0
    d = _posnorm(d)
    if op == "==":
        n = neg(d)
        if pkey(n.n) < pkey(d.n):
            d = n
        z = zpoly(d.n) == 0
    else:
        z = signexpr(d) < 0
    REG[z.get_id()] = (z, op, d)
    return z


_INFO = {}


def _scan(e):
    """(atoms, linear) of a z3 condition"""
    k = e.get_id()
    h = _INFO.get(k)
    if h is not None:
        return h[1]
    g = REG.get(k)
    if g is not None:
        d = g[2]
        ats, linr = set(), not d.d
        for p in [d.n] + [p for p, _ in d.d.values()]:
            for m in p:
                ats.update(i for i, _ in m)
                if sum(x for _, x in m) > 1:
                    linr = False
        r = (frozenset(ats), linr)
    else:
        ats, linr = set(), True
        for c in e.children():
            if z3.is_bool(c):
                a, l = _scan(c)
            else:
                a, l = {"?"}, False
            ats |= a
            linr = linr and l
        if not e.children() and not (z3.is_true(e) or z3.is_false(e)):
            ats, linr = {"b%d" % k}, True
        r = (frozenset(ats), linr)
    _INFO[k] = (e, r)
    return r


def atoms_of(e):
    return _scan(e)[0]


def linear(e):
    return _scan(e)[1]


# ---- facts about function atoms
_DEFS = []      # z3 facts that hold for the atoms created so far


def facts():
    return list(_DEFS)


def _content(a):
    """a = c * m with m having leading coefficient 1"""
    if isinstance(a, Fr):
        return a, Fr(1)
    mm = max(a.n, key=lambda m: (len(m), m))
    c = a.n[mm]
    return c, mul(a, 1 / c)


_SQF = {}


def _square_part(n):
    """largest s (from trial division by small primes) with s^2 | n"""
    h = _SQF.get(n)
    if h is None:
        s, m, p = 1, n, 2
        while p < 1000 and p * p <= m:
            while m % (p * p) == 0:
                m //= p * p
                s *= p
            while m % p == 0:
                m //= p
            p += 1
        r = math.isqrt(m)
        if m > 1 and r * r == m:
            s *= r
        h = _SQF[n] = s
    return h


_POSITIVE = ("sqrt", "exp", "abs")


def ppos(p):
    """p is positive for syntactic reasons (sqrt and abs atoms taken as non-zero: they occur as divisors)"""
    for m, c in p.items():
        if c <= 0 or any(e % 2 and (ATOMS[i]["info"] or ("",))[0] not in _POSITIVE for i, e in m):
            return False
    return bool(p)


def fsqrt(a):
    """square root of a, which is not negative"""
    if isinstance(a, Fr):
        if a < 0:
            raise ValueError("sqrt of negative constant")
        if a == 0:
            return a
        s = Fr(_square_part(a.numerator), _square_part(a.denominator))
        a = a / (s * s)
        if a == 1:
            return s
        if a.denominator != 1:
            # sqrt(p/q) = sqrt(p q) / q
            return mul(fsqrt(a * a.denominator ** 2), s / a.denominator)
        return mul(_sqrt_atom(a), s)
    if a.d:
        # sqrt(n/d) = sqrt(n) / sqrt(d) when d is positive
        if len(a.n) == 1 and ONE_M in a.n and a.n[ONE_M] > 0 or all(ppos(q) for q, _ in a.d.values()):
            even, odd = pconst(1), pconst(1)
            pos = True
            for q, e in a.d.values():
                even = pmul(even, ppow(q, e // 2))
                if e % 2:
                    odd = pmul(odd, q)
                if e > 1 and not ppos(q):
                    pos = False
            if pos:
                d = mk(even, {})
                if not (len(odd) == 1 and ONE_M in odd):
                    d = mul(d, fsqrt(mk(odd, {})))
                elif odd[ONE_M] != 1:
                    d = mul(d, fsqrt(odd[ONE_M]))
                return div(fsqrt(mk(a.n, {})), d)
    elif len(a.n) == 1:
        # a monomial: powers of positive atoms come out
        (m, c), = a.n.items()
        if c > 0 and any(e > 1 and (ATOMS[i]["info"] or ("",))[0] in _POSITIVE for i, e in m):
            out = tuple((i, e // 2) for i, e in m if e > 1 and (ATOMS[i]["info"] or ("",))[0] in _POSITIVE)
            o = dict(out)
            rest = tuple((i, e - 2 * o.get(i, 0)) for i, e in m if e - 2 * o.get(i, 0))
            return mul(mk({out: Fr(1)}, {}), fsqrt(mk({rest: c}, {})))
    if a.n:
        g = math.gcd(*[c.numerator for c in a.n.values()])
        l = math.lcm(*[c.denominator for c in a.n.values()])
        s = Fr(_square_part(g), _square_part(l))
        if s != 1:
            return mul(_sqrt_atom(R(pscale(a.n, 1 / (s * s)), a.d)), s)
    return _sqrt_atom(a)


def _sqrt_atom(a):
    k = ("sqrt", key(a))
    if k not in ATOM_BY_KEY:
        h = _same("sqrt", a)
        if h is not None:
            return h
        if isinstance(a, R) and a.d:
            i = atom(k, None, ("sqrt", a))
            _DEFS.append(ATOMS[i]["z"] * ATOMS[i]["z"] * zpoly(dmul(a.d)) == zpoly(a.n))
        else:
            i = atom(k, lift(a).n, ("sqrt", a))
            _DEFS.append(ATOMS[i]["z"] * ATOMS[i]["z"] == zpoly(lift(a).n))
        _DEFS.append(ATOMS[i]["z"] >= 0)
    return from_atom(ATOM_BY_KEY[k])


# ---- atoms that denote the same value
_NUM = {}


def _numatom(i):
    v = _NUM.get(i)
    if v is None:
        info = ATOMS[i]["info"]
        if info is None:
            v = 0.5 + ((i * 2654435761) % 997) / 1009.0
        elif info[0] in ("cospi", "sinpi"):
            v = (math.cos if info[0] == "cospi" else math.sin)(math.pi * float(info[1]))
        else:
            fn = {"abs": abs, "sqrt": math.sqrt, "sin": math.sin, "cos": math.cos, "exp": math.exp, "asinh": math.asinh, "log": math.log,
                  "atan": math.atan}.get(info[0])
            try:
                v = fn(*[numval(x) for x in info[1:]]) if fn else math.nan
            except (ValueError, OverflowError, ZeroDivisionError):
                v = math.nan
        _NUM[i] = v
    return v


def numval(a):
    """value at a fixed point, as a quick test for inequality"""
    if isinstance(a, (int, Fr)):
        return float(a)

    def pv(p):
        return sum(float(c) * math.prod(_numatom(i) ** e for i, e in m) for m, c in p.items())
    try:
        v = pv(a.n)
        for p, e in a.d.values():
            v /= pv(p) ** e
        return v
    except (OverflowError, ZeroDivisionError):
        return math.nan


def _same(fn, a):
    """an existing application of fn to a value equal to a"""
    if not isinstance(a, R) or len(a.n) > 60:
        return None
    v = None
    for i, t in enumerate(ATOMS):
        if t["info"] and t["info"][0] == fn and isinstance(t["info"][1], R) and len(t["info"][1].n) <= 60:
            if v is None:
                v = numval(a)
            w = numval(t["info"][1])
            if abs(v - w) > 1e-6 * (abs(v) + abs(w)):
                continue
            if is_zero(sub(a, t["info"][1])):
                return from_atom(i)
    return None


def fabs(a):
    """|a| as an atom with |a|^2 = a^2"""
    if isinstance(a, Fr):
        return abs(a)
    n = neg(a)
    if key(n) < key(a):
        a = n
    k = ("abs", key(a))
    if k not in ATOM_BY_KEY:
        sq = mul(a, a)
        i = atom(k, lift(sq).n if isinstance(sq, Fr) or not sq.d else None, ("abs", a))
        z = ATOMS[i]["z"]
        d = zpoly(dmul(a.d))
        x = zpoly(a.n)
        if a.d:
            _DEFS.append(z3.Or(z * d == x, z * d == -x))
        else:
            _DEFS.append(z3.Or(z == x, z == -x))
        _DEFS.append(z >= 0)
    return from_atom(ATOM_BY_KEY[k])


HALF_PI = Fr(1570796326794896619, 10 ** 18)      # below pi/2


def _bounds(fn, a):
    """rigorous rational bounds of fn at a rational point"""
    import mpmath
    iv = mpmath.iv
    iv.prec = 120
    x = iv.mpf(a.numerator) / iv.mpf(a.denominator)
    y = iv.log(x + iv.sqrt(x * x + 1)) if fn == "asinh" else getattr(iv, fn)(x)

    def fr(m):
        sg, man, ex, _ = m
        v = Fr(int(man)) * (Fr(2) ** int(ex))
        return -v if sg else v
    lo, hi = y._mpi_
    return fr(lo), fr(hi)


def _num_facts(z, fn, a, slack=Fr(0)):
    if isinstance(a, Fr):
        lo, hi = _bounds(fn, a)
        lo, hi = Fr(int((lo - slack) * 10 ** 15 - 1), 10 ** 15), Fr(int((hi + slack) * 10 ** 15) + 1, 10 ** 15)
        _DEFS.append(z3.And(z >= z3.RealVal(str(lo)), z <= z3.RealVal(str(hi))))


PI = Fr(884279719003555, 281474976710656)      # the double nearest to pi


def _const_sincos(a):
    """(cos, sin) of a constant: an angle within 1e-13 of a simple fraction of pi is that fraction (rounding is not modelled), reduced to
    the first eighth of the circle by the exact symmetries"""
    q = (a / PI).limit_denominator(400)
    if abs(a / PI - q) > Fr(1, 10 ** 13):
        return None
    q %= 2
    cs = ss = 1
    if q > 1:
        q, ss = 2 - q, -1
    if q > Fr(1, 2):
        q, cs = 1 - q, -1
    swap = q > Fr(1, 4)
    if swap:
        q = Fr(1, 2) - q
    if q == 0:
        c, s = Fr(1), Fr(0)
    elif q == Fr(1, 4):
        c = s = mul(fsqrt(Fr(2)), Fr(1, 2))
    elif q == Fr(1, 6):
        c, s = mul(fsqrt(Fr(3)), Fr(1, 2)), Fr(1, 2)
    else:
        kc, ks = ("cospi", q), ("sinpi", q)
        if kc not in ATOM_BY_KEY:
            ic = atom(kc, None, ("cospi", q))
            isn = atom(ks, padd(pconst(1), pmul(patom(ic), patom(ic)), -1), ("sinpi", q))
            zc, zs = ATOMS[ic]["z"], ATOMS[isn]["z"]
            _DEFS.append(zc * zc + zs * zs == 1)
            _num_facts(zc, "cos", q * PI, Fr(1, 10 ** 12))
            _num_facts(zs, "sin", q * PI, Fr(1, 10 ** 12))
        c, s = from_atom(ATOM_BY_KEY[kc]), from_atom(ATOM_BY_KEY[ks])
    if swap:
        c, s = s, c
    return (c if cs > 0 else neg(c)), (s if ss > 0 else neg(s))


def _sincos(a):
    # parity: a = s * b with positive leading coefficient
    s = 1
    c = a if isinstance(a, Fr) else a.n[max(a.n, key=lambda m: (len(m), m))]
    if c < 0:
        s, a = -1, neg(a)
    kc, ks = ("cos", key(a)), ("sin", key(a))
    if kc not in ATOM_BY_KEY:
        ic = atom(kc, None, ("cos", a))
        isn = atom(ks, padd(pconst(1), pmul(patom(ic), patom(ic)), -1), ("sin", a))
        zc, zs = ATOMS[ic]["z"], ATOMS[isn]["z"]
        _DEFS.append(zc * zc + zs * zs == 1)
        if isinstance(a, Fr):
            _num_facts(zc, "cos", a)
            _num_facts(zs, "sin", a)
        else:
            _DEFS.append(z3.Implies(z3.And(rel("<", Fr(0), a), rel("<", a, HALF_PI)), z3.And(zc > 0, zs > 0)))
    return s, from_atom(ATOM_BY_KEY[kc]), from_atom(ATOM_BY_KEY[ks])


def fcos(a):
    if isinstance(a, Fr):
        r = _const_sincos(a)
        if r is not None:
            return r[0]
    return _sincos(a)[1]


def fsin(a):
    if isinstance(a, Fr):
        r = _const_sincos(a)
        if r is not None:
            return r[1]
    s, c, n = _sincos(a)
    return n if s > 0 else neg(n)


def fipow(a, n):
    if n < 0:
        return inv(fipow(a, -n))
    r = Fr(1)
    for _ in range(n):
        r = mul(r, a)
    return r


def _atom_times(a, fn):
    """(c, info) if a = c * f for an application f of fn and a constant c"""
    if isinstance(a, R) and not a.d and len(a.n) == 1:
        (m, c), = a.n.items()
        if len(m) == 1 and m[0][1] == 1:
            info = ATOMS[m[0][0]]["info"]
            if info and info[0] == fn:
                return c, info
    return None


def fexp(a):
    if isinstance(a, Fr) and a == 0:
        return Fr(1)
    s = 1
    c = a if isinstance(a, Fr) else a.n[max(a.n, key=lambda m: (len(m), m))]
    if c < 0:
        s, a = -1, neg(a)
    h = _atom_times(a, "log")
    if h and (2 * h[0]).denominator == 1 and h[0] <= 32:
        # exp(n log x) = x^n, exp(n/2 log x) = sqrt(x)^n
        x = h[1][1] if h[0].denominator == 1 else fsqrt(h[1][1])
        return fipow(x, s * int(h[0] if h[0].denominator == 1 else 2 * h[0]))
    h = _atom_times(a, "asinh")
    if h and h[0].denominator == 1 and h[0] <= 8:
        x = h[1][1]
        r = fsqrt(add(mul(x, x), Fr(1)))
        # exp(asinh x) = x + sqrt(x^2 + 1), its inverse is sqrt(x^2 + 1) - x
        return fipow(add(r, x) if s > 0 else sub(r, x), int(h[0]))
    k = ("exp", key(a))
    if k not in ATOM_BY_KEY:
        square = None
        if isinstance(a, R) and len(a.n) <= 60:
            v = numval(a)
            for i, t in enumerate(ATOMS):
                if not (t["info"] and t["info"][0] == "exp" and isinstance(t["info"][1], R)):
                    continue
                b = t["info"][1]
                q = v / numval(b) if numval(b) else math.nan
                if not abs(q) < 16:
                    continue
                n = round(q)
                if n and abs(q - n) < 1e-6 and is_zero(sub(a, mul(b, Fr(n)))):
                    return fipow(from_atom(i), s * n)
                if q and abs(q - 0.5) < 1e-6 and is_zero(sub(a, mul(b, Fr(1, 2)))):
                    square = patom(i)
        i = atom(k, square, ("exp", a))
        _DEFS.append(ATOMS[i]["z"] > 0)
        if square is not None:
            _DEFS.append(ATOMS[i]["z"] * ATOMS[i]["z"] == zpoly(square))
        if isinstance(a, Fr):
            _num_facts(ATOMS[i]["z"], "exp", a)
        else:
            _DEFS.append(z3.Implies(rel("<", Fr(0), a), ATOMS[i]["z"] > 1))
    e = from_atom(ATOM_BY_KEY[k])
    return e if s > 0 else inv(e)


def _factors(n):
    """n = product of p^e; the last factor may be composite when it is large"""
    r, p = {}, 2
    while p < 2000 and p * p <= n:
        while n % p == 0:
            r[p] = r.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        r[n] = r.get(n, 0) + 1
    return r


def flog(a):
    """logarithm of a, which is positive"""
    if isinstance(a, Fr):
        if a <= 0:
            raise ValueError("logarithm of a number that is not positive")
        f = _factors(a.numerator)
        for p, e in _factors(a.denominator).items():
            f[p] = f.get(p, 0) - e
        r = Fr(0)
        for p, e in sorted(f.items()):
            if not e:
                continue
            k = ("log", p)
            if k not in ATOM_BY_KEY:
                i = atom(k, None, ("log", Fr(p)))
                _num_facts(ATOMS[i]["z"], "log", Fr(p))
            r = add(r, mul(from_atom(ATOM_BY_KEY[k]), Fr(e)))
        return r
    if not a.d and len(a.n) == 1:
        (m, c), = a.n.items()
        if c > 0 and all((ATOMS[i]["info"] or ("",))[0] in ("exp", "sqrt") for i, _ in m):
            r = flog(c) if c != 1 else Fr(0)
            for i, e in m:
                x = ATOMS[i]["info"][1]
                r = add(r, mul(x if ATOMS[i]["info"][0] == "exp" else mul(flog(x), Fr(1, 2)), Fr(e)))
            return r
    # log x = asinh((x - 1/x) / 2)
    if len(a.n) <= 30:
        h = mul(sub(a, inv(a)), Fr(1, 2))
        hit = _same("asinh", h)
        if hit is not None:
            return hit
        hit = _same("asinh", neg(h)) if isinstance(h, R) else None
        if hit is not None:
            return neg(hit)
    k = ("log", key(a))
    if k not in ATOM_BY_KEY:
        hit = _same("log", a)
        if hit is not None:
            return hit
        hit = _same("log", inv(a))
        if hit is not None:
            return neg(hit)
        i = atom(k, None, ("log", a))
        _DEFS.append(z3.Implies(rel("<", Fr(1), a), ATOMS[i]["z"] > 0))
        _DEFS.append(z3.Implies(rel("<", a, Fr(1)), ATOMS[i]["z"] < 0))
    return from_atom(ATOM_BY_KEY[k])


def fasinh(a):
    if isinstance(a, Fr) and a == 0:
        return a
    s = 1
    c = a if isinstance(a, Fr) else a.n[max(a.n, key=lambda m: (len(m), m))]
    if c < 0:
        s, a = -1, neg(a)
    k = ("asinh", key(a))
    if k not in ATOM_BY_KEY:
        hit = _same("asinh", a)
        if hit is None and isinstance(a, R):
            hit = _same("log", add(a, fsqrt(add(mul(a, a), Fr(1)))))
        if hit is not None:
            return hit if s > 0 else neg(hit)
        i = atom(k, None, ("asinh", a))
        if isinstance(a, Fr):
            _num_facts(ATOMS[i]["z"], "asinh", a)
        else:
            _DEFS.append(z3.Implies(rel("<", Fr(0), a), ATOMS[i]["z"] > 0))
    r = from_atom(ATOM_BY_KEY[k])
    return r if s > 0 else neg(r)


def fpow(x, y):
    """x^y for a positive x (or an integer y)"""
    if isinstance(y, Fr) and y.denominator == 1 and abs(y) <= 64:
        return fipow(x, int(y))
    if isinstance(y, Fr) and y.denominator == 2 and abs(y) <= 32:
        return fipow(fsqrt(x), int(2 * y))
    l = flog(x)
    e = fexp(mul(y, l))
    if isinstance(e, R) and not e.d and isinstance(x, Fr) and isinstance(y, R):
        z = zpoly(e.n)
        (_DEFS.append(z3.Implies(rel("<", Fr(0), y), z > 1 if x > 1 else z < 1)))
    return e


def fsinh(a):
    e = fexp(a)
    return mul(sub(e, inv(e)), Fr(1, 2))


def fcosh(a):
    e = fexp(a)
    return mul(add(e, inv(e)), Fr(1, 2))


def ffun(name, *args):
    k = (name,) + tuple(key(a) for a in args)
    if k not in ATOM_BY_KEY:
        hit = _same(name, args[0]) if len(args) == 1 else None
        if hit is not None:
            return hit
        atom(k, None, (name,) + args)
    return from_atom(ATOM_BY_KEY[k])


def ftan(a):
    if isinstance(a, Fr) and a == 0:
        return Fr(0)
    return div(fsin(a), fcos(a))
