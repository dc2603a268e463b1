"""C13: sum over m of log-determinants."""
import numpy as np

from engine.harness import Obligation
from props.C12 import lndet1m, near, plain_balance
from props.common import Mat, stub_elements


def geometry(h, lmax, lss=None, **kw):
    r1, r2 = h.pos('r1', smp=(0.6, 1.2)), h.pos('r2', smp=(0.6, 1.2))
    L = h.pos('L', smp=(2.5, 4))
    h.given(L > r1 + r2)
    m1, m2, med = (Mat(h, e, h.frac(1), name=x) for x, e in
                   (('a', h.pos('ea', smp=(2, 9))), ('b', h.pos('eb', smp=(2, 9))), ('c', h.frac(1))))
    G = h.mod('geometry').SphereSphere(r1, r2, L, m1, m2, med, lmax=lmax, lssmax=lss or lmax, **kw)
    return G


def conc(h, x):
    return x if h.sym else h.arr(x.tolist())


def blocks(h, G, lmax, keys, real=False):
    """arbitrary blocks per (m, wavenumber) with det(1-M) > 0; real: the code's own ones in concrete mode.
    M = 1 - [[p, -s], [t, q]] per 2x2 sub-block, block triangular beyond (any value of the determinant is reached)"""
    if real and not h.sym:
        return
    tab = {}

    def one(m, k, n):
        v = lambda *i: h.pos('b%d%s%s' % (m, k, ''.join(str(x) for x in i)))
        D = np.empty((2 * n, 2 * n), dtype=object)
        for i in range(2 * n):
            for j in range(2 * n):
                D[i, j] = h.frac(0)
        for i in range(2 * n):
            D[i, i] = v(i)
        D[0, n] = -v('s')
        D[n, 0] = v('t')
        eye = np.empty((2 * n, 2 * n), dtype=object)
        for i in range(2 * n):
            for j in range(2 * n):
                eye[i, j] = h.frac(1 if i == j else 0)
        return eye - D

    def bm(m, k):
        n = lmax - max(1, m) + 1
        out = [np.empty((len(k), n, n), dtype=object) for _ in range(4)]
        for j in range(len(k)):
            key = (m, keys[str(k[j])])
            if key not in tab:
                tab[key] = one(m, key[1], n)
            M = tab[key]
            for b in range(4):
                r, c = (b // 2) * n, (b % 2) * n
                out[b][j] = M[r:r + n, c:c + n]
        return [conc(h, x) for x in out]
    G.blockmatrices = bm

    def bk0(m):
        b = bm(m, [0])
        return [b[0][0], b[3][0]]
    G.blockmatrices_k0 = bk0


def full(M, j):
    n = M[0].shape[1]
    return [[M[2 * (a // n) + b // n][j, a % n, b % n] for b in range(2 * n)] for a in range(2 * n)]


def admissible(h, r, steps, prec, frac, loose=False):
    """r is the full sum, or a partial sum whose last term changed the dominant entry by less than frac*prec"""
    nk = len(r)
    ok = [h.And(*[near(h, r[j], steps[-1][1][j]) for j in range(nk)])]
    for old, new in steps[1:-1]:
        same = h.And(*[near(h, r[j], new[j]) for j in range(nk)])
        dom = []
        for d in range(nk):
            big = h.And(*[abs(old[d]) >= abs(old[j]) * (1 if h.sym else 0.999999) for j in range(nk)])
            if h.sym:
                small = abs(abs(new[d] / old[d]) - 1) < prec * frac
                if loose:
                    small = h.Or(small, abs(abs(old[d] / new[d]) - 1) < prec * frac)
            else:
                small = abs(new[d] - old[d]) <= prec * frac * 1.01 * max(abs(new[d]), abs(old[d]))
            dom.append(h.And(big, small))
        ok.append(h.And(same, h.Or(*dom)))
    for old, new in steps[:-1]:       # a vanishing sum stays zero
        ok.append(h.And(*[near(h, r[j], new[j]) for j in range(nk)] + [new[j] == 0 for j in range(nk)]))
    return h.Or(*ok)


def msum(h, lmax, nk, real=False):
    plain_balance(h)
    stub_elements(h)
    G = geometry(h, lmax)
    prec = h.pos('prec', hi=1, smp=(1e-4, 0.3))
    G.precision = prec
    ks = [h.pos('k%d' % j, smp=(0.2, 1)) for j in range(nk)]
    blocks(h, G, lmax, {str(k): str(i) for i, k in enumerate(ks)}, real)
    ka = h.arr(ks)
    S, steps = [0] * nk, []
    for m in range(lmax + 1):
        M = G.blockmatrices(m, ka)
        one = G.single_m(m, ka)
        h.shape(one, (nk,), 'single m')
        new = []
        for j in range(nk):
            t = lndet1m(h, full(M, j))
            h.eq(one[j], t, 'm=%d k%d' % (m, j), atol=1e-14)
            new.append(S[j] + (1 if m == 0 else 2) * t)
        steps.append((S, new))
        S = new
    r = G.mSumme(ka)
    h.shape(r, (nk,), 'one number per wavenumber')
    h.true(admissible(h, r, steps, prec, h.frac(1, 10)), 'full sum or safe early stop')


def long_sum(h, lmax, nk, prec, static=False):
    """many projections: ln det(1-M(m)) = t_m < 0 arbitrary (diagonal 1x1 blocks, determinant on one polarisation)"""
    plain_balance(h)
    stub_elements(h)
    G = geometry(h, lmax)
    G.precision = prec
    ks = [h.pos('k%d' % j, smp=(0.2, 1)) for j in range(nk)]
    idx = {str(k): i for i, k in enumerate(ks)}
    t = [[-h.pos('t%d_%d' % (m, j), smp=(0.5 / 2 ** m, 1.5 / 2 ** m) if m % 4 else (0.5, 1.5)) for j in range(nk)] for m in range(lmax + 1)]
    D = [[h.exp(x) for x in row] for row in t]

    def bm(m, k):
        out = [np.empty((len(k), 1, 1), dtype=object) for _ in range(4)]
        for j in range(len(k)):
            i = idx.get(str(k[j]), 0)
            for b in range(4):
                out[b][j, 0, 0] = h.frac(0)
            out[0 if m % 2 else 3][j, 0, 0] = 1 - D[m][i]
        return [conc(h, x) for x in out]
    G.blockmatrices = bm
    G.blockmatrices_k0 = lambda m: [bm(m, [0])[0][0], bm(m, [0])[3][0]]
    S, steps = [0] * nk, []
    for m in range(lmax + 1):
        new = [S[j] + (1 if m == 0 else 2) * t[m][j] for j in range(nk)]
        steps.append((S, new))
        S = new
    r = np.ravel(G.mSumme_k0()) if static else G.mSumme(h.arr(ks))
    h.shape(r, (nk,), 'one number per wavenumber')
    h.true(admissible(h, r, steps, h.num(str(prec)), h.frac(1, 10), static), 'full sum or safe early stop')


def leading_zero(h, lmax, nk, trace=False, real=False):
    """[0, k...] -> static value followed by the finite ones; [0] -> the static value"""
    plain_balance(h)
    stub_elements(h)
    G = geometry(h, lmax, evaluation='trace' if trace else 'lndet')
    ks = [h.pos('k%d' % j, smp=(0.2, 1)) for j in range(nk)]
    blocks(h, G, lmax, dict({str(k): str(i) for i, k in enumerate(ks)}, **{'0': 'z', '0.0': 'z'}), real)
    z = np.ravel(G.mSumme_k0())
    f = G.mSumme(h.arr(ks))
    r = G.mSumme(h.arr([0] + ks))
    h.shape(r, (nk + 1,), 'one number per wavenumber')
    h.eq(r[0], z[0], 'static first')
    h.eq(r[1:], f, 'finite after')
    h.eq(np.ravel(G.mSumme(h.iarr([0])))[0], z[0], 'static alone')
    for m in range(lmax + 1):
        s = np.ravel(G.single_m_k0(m))
        u = np.ravel(G.single_m(m, h.arr([0] + ks)))
        h.shape(u, (nk + 1,), 'single m')
        h.eq(u[0], s[0], 'static single m=%d' % m)
        h.eq(u[1:], G.single_m(m, h.arr(ks)), 'finite single m=%d' % m)


def one_roundtrip(h, lmax, nk, prec, mmax='automatic', real=False):
    stub_elements(h)
    G = geometry(h, lmax)
    G.precision = prec
    ks = [h.pos('k%d' % j, smp=(0.2, 1)) for j in range(nk)]
    blocks(h, G, lmax, {str(k): str(i) for i, k in enumerate(ks)}, real)
    ka = h.arr(ks)
    r = G.mSum_oneRoundtrip(ka, mmax) if mmax != 'automatic' else G.mSum_oneRoundtrip(ka)
    h.shape(r, (nk,), 'one number per wavenumber')
    top = {1e-4: 13, 0.3: 2, 0.6: 1}[prec] if mmax == 'automatic' else mmax
    for j in range(nk):
        s = 0
        for m in range(min(lmax, max(1, top)) + 1):
            M = G.blockmatrices(m, ka)
            n = M[0].shape[1]
            s = s + (1 if m == 0 else 2) * sum(M[0][j, a, a] + M[3][j, a, a] for a in range(n))
        h.eq(r[j], s, 'trace sum k%d' % j)


OBLIGATIONS = []


def add(name, fn, tier='quick', **kw):
    o = {k: kw.pop(k) for k in ('timeout', 'tol', 'points', 'max_paths') if k in kw}
    OBLIGATIONS.append(Obligation(name, fn, kw, tier=tier, points=o.get('points', 2), tol=o.get('tol', 1e-7),
                                  timeout=o.get('timeout', 300), max_paths=o.get('max_paths', 400),
                                  bounds=', '.join('%s=%s' % x for x in kw.items())))


for lmax, nk, t in ((1, 1, 'quick'), (1, 2, 'quick'), (2, 1, 'quick'), (2, 2, 'quick'), (3, 1, 'quick'), (3, 2, 'quick'), (2, 3, 'quick'), (1, 5, 'quick'), (2, 4, 'quick'), (3, 3, 'thorough')):
    add('msum-%d-%d' % (lmax, nk), msum, t, lmax=lmax, nk=nk)
for lmax, nk in ((6, 1), (12, 1), (30, 1), (5, 2)):
    add('long-%d-%d' % (lmax, nk), long_sum, lmax=lmax, nk=nk, prec=1e-3)
add('long-static-12', long_sum, lmax=12, nk=1, prec=1e-3, static=True)
add('long-static-30', long_sum, lmax=30, nk=1, prec=1e-3, static=True)
add('zero-1-1', leading_zero, lmax=1, nk=1)
add('zero-2-2', leading_zero, lmax=2, nk=2)
add('msum-real-2-2', msum, lmax=2, nk=2, real=True)
add('zero-real-2-1', leading_zero, lmax=2, nk=1, real=True)
add('one-real-3-1', one_roundtrip, lmax=3, nk=1, prec=1e-4, real=True)
add('one-1-1', one_roundtrip, lmax=1, nk=1, prec=1e-4)
add('one-3-2', one_roundtrip, lmax=3, nk=2, prec=1e-4)
add('one-4-1', one_roundtrip, lmax=4, nk=1, prec=0.3)
add('one-4-2', one_roundtrip, lmax=4, nk=2, prec=0.6)
add('one-4-1-m3', one_roundtrip, lmax=4, nk=1, prec=0.6, mmax=3)
OUTSIDE = 'more than four orders or three wavenumbers; det(1-M) <= 0; rounding'
