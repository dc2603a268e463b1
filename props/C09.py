"""C09: translation coefficients at finite frequency."""
from engine.harness import Obligation
from props.common import abstract_bessel, bi, bk, FMat
from props.C08 import value


def medium(h, nk):
    """dispersive medium: refractive index and permeability at each wavenumber are free positive numbers"""
    ks = [h.pos('k%d' % i, smp=(0.3, 2)) for i in range(nk)]
    ns = [h.pos('n%d' % i, smp=(0.5, 2)) for i in range(nk)]
    ms = [h.pos('mu%d' % i, smp=(0.5, 2)) for i in range(nk)]

    def find(k):
        for i, a in enumerate(ks):
            if a is k or (not h.sym and a == k):
                return i
        raise AssertionError('medium evaluated at a wavenumber that is not in the array')

    def eps(k):
        i = find(k)
        return ns[i] * ns[i] / ms[i]
    return ks, ns, FMat(h, eps, lambda k: ms[find(k)])


def oracle(h, l1, l2, m, x, ext):
    """(EE, EM) for a positive shift"""
    ee = em = 0
    l1p, l2p = l1 * (l1 + 1), l2 * (l2 + 1)
    for p in range(abs(l1 - l2), l1 + l2 + 1, 2):
        f = bk(h, p, x) * 2 / h.pi if ext else bi(h, p, x)
        s = -1 if ext else (-1) ** p
        c = s * (-1) ** m * h.sqrt(h.pi * h.frac(2 * p + 1, l1p * l2p)) * value(h, l1, l2, m, p) * f
        ee = ee + (l1p + l2p - p * (p + 1)) * c
        em = em + 2 * m * x * c
    return ee, em


def coefficients(h, lmax, lss, m, ext, nk=2):
    abstract_bessel(h)
    ks, ns, med = medium(h, nk)
    L = h.pos('L', smp=(0.5, 2))
    lmin = max(1, m)
    k = h.arr(ks)
    t = h.mod('translation').translation(lmax, lss, m, med, L, k, ext)
    v = t.trans_ab()
    sh = (nk, lmax - lmin + 1, lss - lmin + 1)
    h.true(len(v) == 5, 'five tables')
    for n, a in enumerate(v):
        h.shape(a, sh, 'table %d' % n)
    for j in range(nk):
        x = ks[j] * L * ns[j]
        for a, l1 in enumerate(range(lmin, lmax + 1)):
            for b, l2 in enumerate(range(lmin, lss + 1)):
                ee, em = oracle(h, l1, l2, m, x, ext)
                s = h.exp(v[4][j, a, b])
                w = 'k%d l1=%d l2=%d' % (j, l1, l2)
                sg = (-1) ** (l1 + l2)
                h.eq(v[0][j, a, b] * s, ee, 'EE ab ' + w)
                h.eq(v[1][j, a, b] * s, sg * ee, 'EE ba ' + w)
                h.eq(v[2][j, a, b] * s, em, 'EM ab ' + w)
                h.eq(v[3][j, a, b] * s, -sg * em, 'EM ba ' + w)
    for j in range(nk):
        h.true(k[j] == ks[j], 'wavenumbers untouched')


def symmetric(h, l1, l2, m, ext):
    """l1 <-> l2 exchange and independence of the truncation"""
    abstract_bessel(h)
    ks, ns, med = medium(h, 1)
    L = h.pos('L', smp=(0.5, 2))
    T = h.mod('translation').translation
    top = max(l1, l2)
    lmin = max(1, m)
    v = T(top, top, m, med, L, h.arr(ks), ext).trans_ab()
    u = T(l1, l2, m, med, L, h.arr(ks), ext).trans_ab()
    i, j = l1 - lmin, l2 - lmin
    for n in range(4):
        a = v[n][0, i, j] * h.exp(v[4][0, i, j])
        b = v[n][0, j, i] * h.exp(v[4][0, j, i])
        h.eq(a, b, 'symmetric %d' % n)
        h.eq(a, u[n][0, i, j] * h.exp(u[4][0, i, j]), 'truncation %d' % n)


def history(h, order):
    """translations of different kinds built and evaluated in any order, each twice: nothing of one reaches another"""
    abstract_bessel(h)
    ks, ns, med = medium(h, 2)
    Ls = [h.pos('L%d' % i, smp=(0.5, 2)) for i in range(2)]
    T = h.mod('translation').translation
    made = []
    for q in order.split():
        lmax, lss, m, ext, li, ki = [int(c) for c in q]
        k = [ks[ki], ks[1 - ki]]
        made.append((T(lmax, lss, m, med, Ls[li], h.arr(k), ext), lmax, lss, m, ext, li, ki))
    for rep in range(2):
        for c, (t, lmax, lss, m, ext, li, ki) in enumerate(made[::-1] if rep else made):
            v = t.trans_ab()
            lmin = max(1, m)
            for j in range(2):
                i = ki if j == 0 else 1 - ki
                for a, l1 in enumerate(range(lmin, lmax + 1)):
                    for b, l2 in enumerate(range(lmin, lss + 1)):
                        ee, em = oracle(h, l1, l2, m, ks[i] * Ls[li] * ns[i], ext)
                        s = h.exp(v[4][j, a, b])
                        w = 'table %d-%d k%d l1=%d l2=%d' % (rep, c, j, l1, l2)
                        h.eq(v[0][j, a, b] * s, ee, 'EE ' + w)
                        h.eq(v[2][j, a, b] * s, em, 'EM ' + w)
            for x in v:
                for ix in h.np.ndindex(*x.shape):
                    x[ix] = h.frac(0)


OBLIGATIONS = []
for n, o in enumerate(('231100 230000 131100 321010 221100 122101', '121100 120100 111110 111101 211100 112100')):
    OBLIGATIONS.append(Obligation('history-%d' % n, history, {'order': o}, points=1, tol=1e-7,
                                  bounds='six translations, orders up to 3, evaluated twice'))
for ext in (0, 1):
    for lmax, lss, m, t in ((1, 2, 0, 'quick'), (2, 3, 0, 'quick'), (2, 3, 1, 'quick'), (3, 4, 2, 'quick'), (4, 3, 3, 'quick'),
                            (3, 5, 1, 'quick'), (5, 5, 4, 'quick'), (4, 4, 0, 'quick'), (4, 4, 2, 'quick'),
                            (9, 10, 9, 'quick'), (12, 11, 11, 'quick'), (16, 17, 15, 'quick'), (21, 21, 20, 'quick'), (30, 31, 30, 'quick'),
                            (2, 18, 1, 'quick'), (14, 2, 1, 'quick'), (1, 20, 1, 'quick'), (1, 16, 0, 'quick'), (11, 22, 10, 'quick'), (3, 34, 3, 'quick'), (20, 3, 2, 'quick'),
                            (6, 6, 1, 'thorough'), (7, 7, 3, 'thorough'), (8, 8, 0, 'thorough'), (8, 8, 6, 'thorough')):
        OBLIGATIONS.append(Obligation('%s-%d-%d-m%d' % ('ext' if ext else 'int', lmax, lss, m), coefficients,
                                      {'lmax': lmax, 'lss': lss, 'm': m, 'ext': ext}, points=1, tol=1e-7, tier=t,
                                      timeout=400 if t == 'quick' else 1500,
                                      bounds='lmax=%d lssmax=%d m=%d, two wavenumbers' % (lmax, lss, m)))
    for l1, l2, m in ((1, 2, 1), (2, 3, 1), (3, 1, 0)):
        OBLIGATIONS.append(Obligation('sym-%s-%d-%d-m%d' % ('ext' if ext else 'int', l1, l2, m), symmetric,
                                      {'l1': l1, 'l2': l2, 'm': m, 'ext': ext}, points=1))
OUTSIDE = 'orders above the bounds; floating-point rounding; correctness of the Bessel tables (C01, C02)'
