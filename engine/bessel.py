"""Exact certification of Bessel prototype poles (arithmetic back end of S06).

theta_n(s) = sum a_k s^k, a_k = (2n-k)! / (2^(n-k) k! (n-k)!), is the reverse Bessel polynomial; with c = a_0^(1/n) the polynomial
theta_n(c s)/a_0 has roots of unit product.  Everything below is integer ball arithmetic: a complex number is (re, im, err) scaled by
2^B with |value - (re + i im)| <= err.  For each given pole a nearby point r is found by Newton's method (unverified), and then the disc
around r of radius n |P(r)/P'(r)| provably contains a root of P.  If the n discs are pairwise disjoint, each holds exactly one root and
they hold all of them."""
from fractions import Fraction
from math import comb, factorial, isqrt

B = 1100
ONE = 1 << B


def iroot(x, n):
    """floor(x ** (1/n)) for huge integers"""
    lo, hi = 0, 1 << (x.bit_length() // n + 1)
    while lo < hi:
        m = (lo + hi + 1) >> 1
        if m ** n <= x:
            lo = m
        else:
            hi = m - 1
    return lo


def mul(a, b):
    ar, ai, ae = a
    br, bi, be = b
    e = ((abs(ar) + abs(ai)) * be + (abs(br) + abs(bi)) * ae + ae * be >> B) + 4
    return (ar * br - ai * bi >> B, ar * bi + ai * br >> B, e)


def coeffs(n):
    return [factorial(2 * n - k) // (2 ** (n - k) * factorial(k) * factorial(n - k)) for k in range(n + 1)]


def scale(n, a0):
    """ball around a_0^(1/n)"""
    prec = 400
    c = iroot(a0 << (prec * n), n)           # c/2^prec <= a0^(1/n) < (c+1)/2^prec
    return (c << (B - prec), 0, 1 << (B - prec))


def evaluate(a, z):
    """P(z), P'(z) by Horner's rule; a[k] integers (lowest first)"""
    n = len(a) - 1
    p, d = (a[n] << B, 0, 0), (0, 0, 0)
    for k in range(n - 1, -1, -1):
        d = mul(d, z)
        d = (d[0] + p[0], d[1] + p[1], d[2] + p[2])
        p = mul(p, z)
        p = (p[0] + (a[k] << B), p[1], p[2])
    return p, d


def dbl(x):
    """exact double as Fraction -> scaled integer (exact: doubles of this size are multiples of 2^-B)"""
    f = Fraction(x) * ONE
    assert f.denominator == 1
    return f.numerator


def absup(a):
    return isqrt(a[0] * a[0] + a[1] * a[1]) + 1 + a[2]


def abslo(a):
    return max(0, isqrt(a[0] * a[0] + a[1] * a[1]) - a[2])


def certify(n, poles):
    """poles: list of (re, im) exact rationals.  -> (ok, largest distance to a root as float, detail)"""
    a = coeffs(n)
    c = scale(n, a[0])
    discs = []
    worst = 0.0
    for re, im in poles:
        z = (dbl(re), dbl(im), 0)
        w = z
        for _ in range(4):
            p, d = evaluate(a, mul((c[0], 0, 0), (w[0], w[1], 0)))
            # step = p / (c d)
            q = mul((d[0], d[1], 0), (c[0], 0, 0))
            m = q[0] * q[0] + q[1] * q[1]
            if m == 0:
                return False, float("inf"), "the derivative vanishes at a given pole"
            sr = ((p[0] * q[0] + p[1] * q[1]) << B) // m
            si = ((p[1] * q[0] - p[0] * q[1]) << B) // m
            w = (w[0] - sr, w[1] - si, 0)
            if abs(w[0]) + abs(w[1]) > 4 * ONE:
                return False, float("inf"), "no root near a given pole"
        p, d = evaluate(a, mul(c, w))
        lo = abslo(mul(d, c))
        if lo <= 0:
            return False, float("inf"), "the derivative cannot be separated from zero"
        r = n * absup(p) * ONE // lo + 1
        discs.append((w[0], w[1], r))
        dist = isqrt((w[0] - z[0]) ** 2 + (w[1] - z[1]) ** 2) + 1 + r
        worst = max(worst, dist / ONE)
    for i in range(len(discs)):
        for j in range(i):
            x, y = discs[i], discs[j]
            if (x[0] - y[0]) ** 2 + (x[1] - y[1]) ** 2 <= (x[2] + y[2]) ** 2:
                return False, worst, "poles %d and %d stand for the same root" % (j + 1, i + 1)
    return True, worst, ""
