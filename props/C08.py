"""C08: Gaunt coefficients."""
from fractions import Fraction
from math import factorial

from engine.harness import Obligation


def threej(j1, j2, j3, m1, m2, m3):
    """Wigner 3j as (sign, exact square) -- Racah formula, integers only"""
    if m1 + m2 + m3 or abs(m1) > j1 or abs(m2) > j2 or abs(m3) > j3 or not abs(j1 - j2) <= j3 <= j1 + j2:
        return 0, Fraction(0)
    f = factorial
    tri = Fraction(f(j1 + j2 - j3) * f(j1 - j2 + j3) * f(-j1 + j2 + j3), f(j1 + j2 + j3 + 1))
    pre = tri * f(j1 + m1) * f(j1 - m1) * f(j2 + m2) * f(j2 - m2) * f(j3 + m3) * f(j3 - m3)
    s = Fraction(0)
    for t in range(max(0, j2 - j3 - m1, j1 - j3 + m2), min(j1 + j2 - j3, j1 - m1, j2 + m2) + 1):
        s += Fraction((-1) ** t, f(t) * f(j3 - j2 + t + m1) * f(j3 - j1 + t - m2) * f(j1 + j2 - j3 - t)
                      * f(j1 - t - m1) * f(j2 - t + m2))
    s *= (-1) ** abs(j1 - j2 - m3)
    return (s > 0) - (s < 0), s * s * pre


def exact(l, lp, m, lpp):
    """int Y_lpp^0 Y_l^m Y_lp^-m: (sign, square*4pi)"""
    s1, q1 = threej(l, lp, lpp, 0, 0, 0)
    s2, q2 = threej(l, lp, lpp, m, -m, 0)
    return s1 * s2, q1 * q2 * (2 * l + 1) * (2 * lp + 1) * (2 * lpp + 1)


def value(h, l, lp, m, lpp):
    s, q = exact(l, lp, m, lpp)
    return s * h.sqrt(h.frac(q.numerator, q.denominator) / (4 * h.pi))


def coefficients(h, pairs, sign=1):
    """The routine's own normalisation: what it returns must be +-(the integral) with one
    global sign convention (-1)^m."""
    g = h.mod('cython_gaunt').gaunt
    for l, lp, ms in pairs:
        for m in ms:
            r = g(l, lp, m)
            ls = list(range(abs(l - lp), l + lp + 1, 2))
            h.shape(r, (len(ls),), 'gaunt(%d,%d,%d)' % (l, lp, m))
            for i, lpp in enumerate(ls):
                h.eq(r[i], value(h, l, lp, m, lpp), "gaunt(%d,%d,%d) l''=%d" % (l, lp, m, lpp), atol=1e-11)


def symmetric(h, l, lmax):
    g = h.mod('cython_gaunt').gaunt
    for lp in range(l, lmax + 1):
        for m in range(0, l + 1):
            h.eq(g(l, lp, m), g(lp, l, m), 'exchange %d %d %d' % (l, lp, m), atol=1e-11)
            h.eq(g(l, lp, m), g(l, lp, -m), 'reflection %d %d %d' % (l, lp, m), atol=1e-11)


def outside(h):
    g = h.mod('cython_gaunt').gaunt
    for l, lp, m in ((1, 1, 2), (1, 3, 2), (3, 1, -2), (2, 2, 3), (2, 5, -4)):
        r = g(l, lp, m)
        h.shape(r, (min(l, lp) + 1,), 'gaunt(%d,%d,%d)' % (l, lp, m))
        h.eq(r, 0 * r, 'zero outside')


def pairs(lo, hi):
    out = []
    for l in range(1, hi + 1):
        for lp in range(1, hi + 1):
            if max(l, lp) >= lo:
                out.append((l, lp, range(-min(l, lp), min(l, lp) + 1)))
    return out


OBLIGATIONS = [Obligation('coef-%d-%d' % (a, b), coefficients, {'pairs': pairs(a, b)}, points=1, tol=1e-8, timeout=400,
                          tier=t, bounds="all l, l' with max in %d..%d, all m" % (a, b))
               for a, b, t in ((1, 3, 'quick'), (4, 4, 'quick'), (5, 5, 'quick'), (6, 6, 'quick'), (7, 7, 'quick'),
                               (8, 8, 'quick'), (9, 9, 'quick'), (10, 10, 'quick'), (11, 11, 'quick'),
                               (12, 12, 'quick'), (13, 13, 'thorough'), (14, 14, 'thorough'))]
OBLIGATIONS += [Obligation('wide', coefficients, {'pairs': [(1, 12, (0, 1, -1)), (12, 2, (0, 2, -1)), (3, 15, (2,)),
                                                            (9, 9, (0, 3, -9)), (20, 4, (-3, 1))]}, points=1, tol=1e-7,
                           bounds='selected large orders'),
                Obligation('wide-2', coefficients, {'pairs': [(16, 16, (0, 1, 16)), (25, 24, (0, 23, -24)), (32, 2, (1, -2)), (40, 1, (0, 1))]},
                           points=1, tol=1e-6, timeout=400, bounds='selected large orders'),
                Obligation('symmetric', symmetric, {'l': 3, 'lmax': 6}, points=1, bounds="l=3, l'<=6"),
                Obligation('order', coefficients, {'pairs': [(3, 2, (1,)), (2, 3, (1,)), (3, 2, (2, 0, 1)), (5, 2, (1,)), (4, 2, (2,)), (2, 4, (2, 1)), (1, 18, (1,)), (2, 2, (1,)),
                                                             (3, 2, (-1, 1)), (11, 1, (1,)), (1, 11, (1, 0)), (1, 1, (1,)), (2, 12, (1,)), (12, 2, (1,)), (3, 3, (2, 3, 1)), (3, 2, (1,))]},
                           points=1, bounds='coefficients asked in mixed order'),
                Obligation('outside', outside, points=1)]
