"""C10: translation coefficients at zero frequency."""
from engine.harness import Obligation
from props.common import dblfac, FMat
from props.C08 import value
from props import C09


def leading(h, l1, l2, m, ext):
    """limit x->0 of x^(l1+l2+1) * EE (exterior), (-x)^-|l1-l2| * EE (interior): only the lowest power of x
    in the Gaunt sum survives: p=l1+l2 with k_p -> (pi/2)(2p-1)!!/x^(p+1), or p=|l1-l2| with i_p -> x^p/(2p+1)!!"""
    l1p, l2p = l1 * (l1 + 1), l2 * (l2 + 1)
    p = l1 + l2 if ext else abs(l1 - l2)
    f = -dblfac(2 * p - 1) if ext else h.frac(1, dblfac(2 * p + 1))
    return ((l1p + l2p - p * (p + 1)) * f * (-1) ** m * value(h, l1, l2, m, p)
            * h.sqrt(h.pi * h.frac(2 * p + 1, l1p * l2p)))


def static(h, lmax, lss, m, ext, flag=None):
    L, n = h.pos('L', smp=(0.5, 5)), h.pos('n', smp=(0.5, 3))
    med = FMat(h, lambda k: n * n, lambda k: h.frac(1))
    lmin = max(1, m)
    T = h.mod('translation').translation
    v = T(lmax, lss, m, med, L, h.iarr([0]), ext if flag is None else flag).trans_ab()
    h.true(len(v) == 2, 'sign and logarithm')
    for n, a in enumerate(v):
        h.shape(a, (lmax - lmin + 1, lss - lmin + 1), 'table %d' % n)
    for a, l1 in enumerate(range(lmin, lmax + 1)):
        for b, l2 in enumerate(range(lmin, lss + 1)):
            h.eq(v[0][a, b] * h.exp(v[1][a, b]), leading(h, l1, l2, m, ext), 'static l1=%d l2=%d m=%d' % (l1, l2, m))


def link(h, lmax, lss, m, ext):
    """the same limit taken on the finite-frequency code: with every Bessel function replaced by its leading
    power times (1 + x^2 u), the code's coefficient times the documented power is the static one plus x^2 * rest,
    rest being the same code's coefficient with ... evaluated exactly"""
    x = h.pos('x', smp=(1e-3, 2e-3))
    b = h.mod('bessel_sk')
    us = {}

    def table(z, top, e):
        out = h.arr([[0] * (top + 1)])
        for p in range(top + 1):
            if h.sym:
                u = us.setdefault(p, h.pos('u%d' % p))
                lead = h.pi / 2 * dblfac(2 * p - 1) / x ** (p + 1) if e else x ** p / dblfac(2 * p + 1)
                out[0, p] = h.log(lead * (1 + x * u))
        return out
    if not h.sym:
        return static(h, lmax, lss, m, ext)
    b.lnknu = lambda z, top: table(z, top, 1)
    b.lniknu = lambda z, top: (table(z, top, 0), table(z, top, 1))
    med = FMat(h, lambda k: h.frac(1), lambda k: h.frac(1))
    lmin = max(1, m)
    T = h.mod('translation').translation
    v = T(lmax, lss, m, med, h.frac(1), h.arr([x]), ext).trans_ab()
    w = T(lmax, lss, m, med, h.frac(1), h.iarr([0]), ext).trans_ab()
    for a, l1 in enumerate(range(lmin, lmax + 1)):
        for c, l2 in enumerate(range(lmin, lss + 1)):
            s = h.exp(v[4][0, a, c])
            pw = x ** (l1 + l2 + 1) if ext else (-1) ** (l1 + l2) / x ** abs(l1 - l2)
            rest = 0
            l1p, l2p = l1 * (l1 + 1), l2 * (l2 + 1)
            for p in range(abs(l1 - l2), l1 + l2 + 1, 2):
                f = (-dblfac(2 * p - 1) if ext else (-1) ** p * h.frac(1, dblfac(2 * p + 1)))
                sub = (l1 + l2 - p if ext else p - abs(l1 - l2))          # power of x left over
                g = (f * (-1) ** m * value(h, l1, l2, m, p) * h.sqrt(h.pi * h.frac(2 * p + 1, l1p * l2p)))
                g = g if ext else g * (-1) ** (l1 + l2)
                q = (l1p + l2p - p * (p + 1)) * g
                rest = rest + q * us[p] * x ** sub
                if sub:
                    rest = rest + q * x ** (sub - 1)
            h.eq(v[0][0, a, c] * s * pw, w[0][a, c] * h.exp(w[1][a, c]) + x * rest, 'limit l1=%d l2=%d' % (l1, l2))
            em = 0
            for p in range(abs(l1 - l2), l1 + l2 + 1, 2):
                f = (-dblfac(2 * p - 1) if ext else h.frac(1, dblfac(2 * p + 1)))
                sub = (l1 + l2 - p if ext else p - abs(l1 - l2))
                em = em + (2 * m * f * (-1) ** m * value(h, l1, l2, m, p) * x ** sub * (1 + x * us[p])
                           * h.sqrt(h.pi * h.frac(2 * p + 1, l1p * l2p)))
            h.eq(v[2][0, a, c] * s * pw, x * em, 'mixing vanishes l1=%d l2=%d' % (l1, l2))


OBLIGATIONS = []
for ext in (1, 0):
    e = 'ext' if ext else 'int'
    for lmax, lss, m, t in ((1, 1, 0, 'quick'), (3, 5, 0, 'quick'), (5, 3, 1, 'quick'), (5, 6, 2, 'quick'), (6, 6, 5, 'quick'),
                            (4, 8, 4, 'quick'), (8, 8, 0, 'quick'), (8, 8, 3, 'quick'), (11, 12, 10, 'quick'), (17, 16, 15, 'quick'), (22, 22, 20, 'quick'), (31, 31, 30, 'quick'),
                            (2, 18, 1, 'quick'), (14, 2, 1, 'quick'), (1, 20, 1, 'quick'), (1, 40, 0, 'quick'), (3, 34, 3, 'quick'), (20, 3, 2, 'quick'),
                            (12, 12, 1, 'thorough'),
                            (14, 14, 7, 'thorough')):
        OBLIGATIONS.append(Obligation('%s-%d-%d-m%d' % (e, lmax, lss, m), static,
                                      {'lmax': lmax, 'lss': lss, 'm': m, 'ext': ext}, points=1, tol=1e-8, tier=t,
                                      bounds='lmax=%d lssmax=%d m=%d' % (lmax, lss, m)))
    for lmax, lss, m in ((2, 3, 0), (2, 3, 1), (3, 3, 2)):
        OBLIGATIONS.append(Obligation('limit-%s-%d-%d-m%d' % (e, lmax, lss, m), link,
                                      {'lmax': lmax, 'lss': lss, 'm': m, 'ext': ext}, points=1, tol=1e-8))
OBLIGATIONS.append(Obligation('ext-floatflag', static, {'lmax': 3, 'lss': 3, 'm': 1, 'ext': 1, 'flag': 1.}, points=1, tol=1e-8))
OUTSIDE = 'orders above the bounds; floating-point rounding'
